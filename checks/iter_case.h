// Iterators and updates interleaved in one thread: a model of the position, and one case of it.
#pragma once
#include "dbs.h"
#include <algorithm>
#include <cstring>
namespace itc {
using namespace tkrzw;
typedef std::map<std::string, std::string> Map;
inline bool RevLess(const std::string& a, const std::string& b) { return a > b; }
inline bool FwdLess(const std::string& a, const std::string& b) { return a < b; }

struct Op { char kind; std::string key; bool inc = false; };
inline std::string Name(const Op& o) { return std::string(1, o.kind) + (o.key.empty() ? "" : o.key) + (o.inc ? "=" : ""); }

enum Kind { LAZY, EAGER, UNORD, SKIP };
struct Cfg { std::string name; Kind kind; DbMaker make; bool rev = false; bool hop = false; bool fresh = false; bool shard = false; };

struct None {};
// A position: nothing, or a key, whose record need not exist any more.
struct Pos {
  bool set = false;
  std::string key;
  bool operator<(const Pos& o) const { return set != o.set ? set < o.set : key < o.key; }
};
typedef std::map<std::string, std::string, bool (*)(const std::string&, const std::string&)> OMap;

inline std::string Show(const OMap& m) { std::string s; for (auto& e : m) s += e.first + "=" + (e.second.size() > 9 ? "(" + std::to_string(e.second.size()) + ")" : e.second) + " "; return "{" + s + "}"; }
inline std::string Brief(const std::string& s) { return s.size() > 9 ? "(" + std::to_string(s.size()) + ")" : s; }

class Case {
 public:
  Case(const std::string& id, const Cfg& c) : id_(id), c_(c), m_(c.rev ? RevLess : FwdLess), pend_(c.rev ? RevLess : FwdLess) {
    c.make(&db_);
    it_ = db_.dbm->MakeIterator();
    cand_ = {Pos()};
  }
  bool ok() const { return err_.empty(); }
  std::string error() const { return err_; }
  void Fail(const std::string& e) { if (err_.empty()) err_ = e; }

  void Direct(char k, const std::string& key, const std::string& val) {
    Status s;
    if (k == 'S') {
      s = db_.dbm->Set(key, val);
      if (s != Status::SUCCESS) return Fail("Set: " + ToString(s));
      (c_.kind == SKIP ? pend_ : m_)[key] = val;
      touched_.insert(key);
    } else {
      const bool has = m_.count(key);
      s = db_.dbm->Remove(key);
      if (c_.kind == SKIP) { if (s == Status::SUCCESS) pend_.erase(key); else if (s != Status::NOT_FOUND_ERROR) Fail("Remove: " + ToString(s)); return; }
      if (s != (has ? Status::SUCCESS : Status::NOT_FOUND_ERROR)) return Fail("Remove: " + ToString(s));
      Gone(key);
    }
  }
  // A record leaves the database by a direct removal.
  void Gone(const std::string& key) {
    touched_.insert(key);
    removed_ = true;
    if (c_.kind == EAGER) {
      std::set<Pos> n;
      for (auto p : cand_) { if (p.set && p.key == key) p = After(key, true); n.insert(p); }
      cand_ = n;
    }
    m_.erase(key);
  }
  Pos After(const std::string& key, bool excl) {
    auto it = excl ? m_.upper_bound(key) : m_.lower_bound(key);
    return it == m_.end() ? Pos() : Pos{true, it->first};
  }
  Pos Before(const std::string& key, bool excl) {
    auto it = excl ? m_.lower_bound(key) : m_.upper_bound(key);
    if (it == m_.begin()) return Pos();
    return Pos{true, (--it)->first};
  }
  void SetPos(const Pos& p) { cand_ = {p}; }

  void Do(const Op& o) {
    if (!ok()) return;
    // An iterator over shards holds a record of each shard as it read it: it is made again after an update.
    const bool again = c_.shard && strchr("SRCBYO", o.kind);
    if (again) it_.reset();
    Do1(o);
    if (again) { it_ = db_.dbm->MakeIterator(); Lost(); }
  }
  void Do1(const Op& o) {
    const int n = step_++;
    const std::string what = Name(o);
    Status s;
    switch (o.kind) {
      case 'S': Direct('S', o.key, std::string(1 + n % 3 * 40, 'p' + n % 8)); return;
      case 'R': Direct('R', o.key, ""); return;
      case 'C':
        s = db_.dbm->Clear();
        if (s != Status::SUCCESS) return Fail("Clear: " + ToString(s));
        m_.clear();
        pend_.clear();
        Lost();
        return;
      case 'B': case 'Y': case 'O': {
        if (o.kind == 'B') s = c_.kind == SKIP ? Sync() : Status(Status::SUCCESS), s |= db_.rebuild ? db_.rebuild() : db_.dbm->Rebuild();
        else if (o.kind == 'Y') s = Sync();
        else {
          if (c_.kind == SKIP) s = Sync();
          if (c_.fresh) it_.reset();
          s |= db_.reopen();
          if (c_.fresh && !c_.shard) it_ = db_.dbm->MakeIterator();
        }
        if (s != Status::SUCCESS) return Fail(what + ": " + ToString(s));
        if (c_.kind == SKIP) m_ = pend_;
        if (o.kind == 'O') Lost(); else Kept(o.kind);
        return;
      }
      case 'N': it_ = db_.dbm->MakeIterator(); Lost(); return;
      case 'D': { auto tmp = db_.dbm->MakeIterator(); tmp->First(); return; }
    }
    if (c_.kind == UNORD) Unordered(o, what); else Ordered(o, what);
  }
  Status Sync() { return db_.sync ? db_.sync(false) : db_.dbm->Synchronize(false); }
  // The position is lost.
  void Lost() { SetPos(Pos()); pass_ = NOPASS; at_ = ""; removed_ = false; }
  // The position may have been lost.
  void Kept(char k) {
    if (c_.kind == UNORD) { if (k == 'B') { maybe_lost_ = true; } return; }
    if (k == 'B' || c_.kind == SKIP) cand_.insert(Pos());
  }

  // An update through the iterator by a processor.
  Status ByProc(char kind, std::string* key, std::string* val) {
    bool hit = false;
    Status s = it_->Process([&](std::string_view k, std::string_view v) -> std::string_view {
      hit = true;
      *key = k;
      *val = v;
      return kind == 'w' ? std::string_view(fifty_) : DBM::RecordProcessor::REMOVE;
    }, true);
    if (s == Status::SUCCESS && !hit) Fail("Process succeeds without a record");
    return s;
  }
  void Ordered(Op o, const std::string& what) {
    Status s;
    auto want = [&](const Status& s, Status::Code code) { if (s != code) Fail(what + " gives " + ToString(s)); };
    switch (o.kind) {
      case 'f': want(it_->First(), Status::SUCCESS); SetPos(m_.empty() ? Pos() : Pos{true, m_.begin()->first}); return;
      case 'l': want(it_->Last(), Status::SUCCESS); SetPos(m_.empty() ? Pos() : Pos{true, m_.rbegin()->first}); return;
      case 'j': {
        want(it_->Jump(o.key), Status::SUCCESS);
        const Pos p = After(o.key, false);
        if (c_.kind == LAZY) { SetPos(Pos{true, o.key}); if (!p.set) cand_.insert(p); } else SetPos(p);
        return;
      }
      case 'L': want(it_->JumpLower(o.key, o.inc), Status::SUCCESS); SetPos(Before(o.key, !o.inc)); return;
      case 'U': want(it_->JumpUpper(o.key, o.inc), Status::SUCCESS); SetPos(After(o.key, !o.inc)); return;
    }
    std::string key = "?", val = "?";
    switch (o.kind) {
      case 'n': s = it_->Next(); break;
      case 'p': s = it_->Previous(); break;
      case 'g': s = it_->Get(&key, &val); break;
      case 't': s = it_->Step(&key, &val); break;
      case 's': s = it_->Set(std::string(50, 'w'), &key, &val); break;
      case 'r': s = it_->Remove(&key, &val); break;
      case 'w': s = ByProc('w', &key, &val); o.kind = 's'; break;
      case 'x': s = ByProc('x', &key, &val); o.kind = 'r'; break;
    }
    std::set<Pos> next;
    std::string hope;
    OMap m0 = m_;
    for (auto& p : cand_) {
      const Pos cur = p.set ? After(p.key, false) : Pos();
      Status::Code code = Status::SUCCESS;
      std::string k = "?", v = "?";
      std::set<Pos> r;
      if (o.kind == 'n' || o.kind == 'p') {
        if (!p.set) { code = Status::NOT_FOUND_ERROR; r = {p}; }
        else r = {o.kind == 'n' ? After(p.key, true) : Before(p.key, true)};
      } else if (!cur.set) {
        code = Status::NOT_FOUND_ERROR;
        r = {p, Pos()};
      } else {
        k = cur.key;
        v = m0[k];
        if (o.kind == 't') r = {After(k, true)};
        else r = {cur};
        if (o.kind == 'r' && c_.kind != SKIP) { r = {After(k, true)}; if (c_.kind == LAZY) r.insert(cur); }
        if (o.kind == 'r' && c_.kind == SKIP) r.insert(After(k, true));
      }
      hope += (hope.empty() ? "" : " or ") + std::string(code == Status::SUCCESS ? "SUCCESS" : "NOT_FOUND") + (k == "?" ? "" : " " + k + "=" + Brief(v));
      // When a position is beyond the last record the end may already have been noticed.
      if (s == code && k == key && v == val) next.insert(r.begin(), r.end());
      else if (p.set && !cur.set && (o.kind == 'n' || o.kind == 'p') && s == Status::NOT_FOUND_ERROR && o.kind == 'n') next.insert(Pos());
    }
    if (next.empty()) return Fail(what + " gives " + ToString(s) + " " + key + "=" + Brief(val) + " and not " + hope + " with " + Show(m_));
    cand_ = next;
    if (key != "?" && o.kind == 's') (c_.kind == SKIP ? pend_ : m_)[key] = std::string(50, 'w');
    if (key != "?" && o.kind == 'r') (c_.kind == SKIP ? pend_ : m_).erase(key);
  }

  // An unordered iterator: each record it gives is in the database, the records which nobody touches are met once in a pass.
  enum Pass { NOPASS, RUN, WILD };
  void Unordered(Op o, const std::string& what) {
    Status s;
    std::string key = "?", val = "?";
    switch (o.kind) {
      case 'f': s = it_->First(); if (s != Status::SUCCESS) return Fail("First: " + ToString(s)); pass_ = RUN; at_ = ""; seen_.clear(); touched_.clear(); removed_ = false; maybe_lost_ = false; base_.clear(); for (auto& e : m_) base_.insert(e.first); return;
      case 'j': {
        s = it_->Jump(o.key);
        const bool has = m_.count(o.key);
        if (s != (has ? Status::SUCCESS : Status::NOT_FOUND_ERROR)) return Fail(what + " gives " + ToString(s) + " with " + Show(m_));
        Lost();
        maybe_lost_ = false;
        if (has) { pass_ = WILD; at_ = o.key; seen_.clear(); touched_.clear(); base_.clear(); }
        return;
      }
      case 'l': s = it_->Last(); break;
      case 'L': s = it_->JumpLower(o.key, o.inc); break;
      case 'U': s = it_->JumpUpper(o.key, o.inc); break;
      case 'p': s = it_->Previous(); break;
      case 'n': s = it_->Next(); break;
      case 'g': s = it_->Get(&key, &val); break;
      case 't': s = it_->Step(&key, &val); break;
      case 's': s = it_->Set(std::string(50, 'w'), &key, &val); break;
      case 'r': s = it_->Remove(&key, &val); break;
      case 'w': s = ByProc('w', &key, &val); o.kind = 's'; break;
      case 'x': s = ByProc('x', &key, &val); o.kind = 'r'; break;
    }
    if (strchr("lLUp", o.kind)) { if (s != Status::NOT_IMPLEMENTED_ERROR && !(c_.shard && o.kind == 'p' && s == Status::NOT_FOUND_ERROR)) Fail(what + " gives " + ToString(s)); return; }
    if (s != Status::SUCCESS && s != Status::NOT_FOUND_ERROR) return Fail(what + " gives " + ToString(s));
    if (o.kind == 'n') {
      if (pass_ == NOPASS) { if (s == Status::SUCCESS && !m_.empty() && false) Fail("Next succeeds without a position"); return; }
      if (s == Status::SUCCESS) Moved();
      else End(what);
      return;
    }
    if (s == Status::SUCCESS) {
      if (pass_ == NOPASS) return Fail(what + " gives " + key + " without a position");
      auto it = m_.find(key);
      if (it == m_.end() || it->second != val) return Fail(what + " gives " + key + "=" + Brief(val) + " with " + Show(m_));
      if (!at_.empty() && at_ != key && !touched_.count(at_) && !maybe_lost_) return Fail(what + " gives " + key + " while the iterator is at " + at_);
      if (seen_.count(key) && !touched_.count(key) && !maybe_lost_) return Fail(what + " gives " + key + " again");
      at_ = key;
      if (o.kind == 't') { Seen(key); at_ = ""; }
      if (o.kind == 's') it->second = std::string(50, 'w');
      if (o.kind == 'r') { m_.erase(it); touched_.insert(key); at_ = ""; }
    } else {
      if (pass_ == NOPASS) return;
      if (!at_.empty() && !touched_.count(at_) && !maybe_lost_) return Fail(what + " gives NOT_FOUND while the iterator is at " + at_);
      if (!removed_) End(what);
      at_ = "";
    }
  }
  void Moved() {
    // An iterator whose record was removed stands at the next one where iterators refer to records and not to keys.
    if (at_.empty() || (c_.hop && !m_.count(at_))) skipped_++;
    if (!at_.empty()) Seen(at_);
    at_ = "";
  }
  void Seen(const std::string& k) { seen_.insert(k); }
  void End(const std::string& what) {
    if (pass_ != RUN || maybe_lost_) return;
    int miss = 0;
    for (auto& k : base_) if (!seen_.count(k) && !touched_.count(k)) miss++;
    if (miss > skipped_) Fail(what + ": the pass ends without " + std::to_string(miss) + " records of " + Show(m_));
  }
  void Tail(int kind) {
    if (kind == 1) Do({'n', ""});
    if (c_.kind == UNORD && kind == 2) Do({'t', ""});
    const char move = kind == 2 && c_.kind != UNORD ? 'p' : 'n';
    for (int i = 0; i < 40 && ok(); i++) {
      Do({'g', ""});
      Status s = move == 'n' ? it_->Next() : it_->Previous();
      // The model follows the same step.
      if (!ok()) return;
      if (c_.kind == UNORD) {
        if (s != Status::SUCCESS) { if (s != Status::NOT_FOUND_ERROR) Fail("moving: " + ToString(s)); else End("Next"); break; }
        Moved();
      } else {
        std::set<Pos> next;
        for (auto& p : cand_) {
          if (!p.set ? s == Status::NOT_FOUND_ERROR : s == Status::SUCCESS) next.insert(p.set ? (move == 'n' ? After(p.key, true) : Before(p.key, true)) : p);
          else if (p.set && !After(p.key, false).set && move == 'n' && s == Status::NOT_FOUND_ERROR) next.insert(Pos());
        }
        if (next.empty()) return Fail(std::string("in the final walk ") + (move == 'n' ? "Next" : "Previous") + " gives " + ToString(s));
        cand_ = next;
        if (s != Status::SUCCESS) break;
      }
      if (i == 39) Fail("the walk does not end");
    }
    if (c_.kind == SKIP) { Status s = Sync(); if (s != Status::SUCCESS) Fail("Synchronize: " + ToString(s)); m_ = pend_; }
    OMap x(c_.rev ? RevLess : FwdLess);
    std::vector<std::string> order;
    Status s = db_.dbm->ProcessEach([&](std::string_view k, std::string_view v) -> std::string_view {
      if (k.data() != DBM::RecordProcessor::NOOP.data() && !(k.empty() && v.empty())) { x[std::string(k)] = v; order.emplace_back(k); }
      return DBM::RecordProcessor::NOOP;
    }, false);
    if (s != Status::SUCCESS) return Fail("ProcessEach: " + ToString(s));
    if (x != m_ || order.size() != m_.size()) return Fail("the database has " + Show(x) + " and not " + Show(m_));
    if (c_.kind != UNORD && !c_.shard) for (size_t i = 1; i < order.size(); i++) if (!m_.key_comp()(order[i - 1], order[i])) return Fail("ProcessEach is not in order");
    if (db_.validate) { const std::string e = db_.validate(); if (!e.empty()) Fail(e); }
  }
  void Load(const std::vector<std::string>& keys) {
    int i = 0;
    for (auto& k : keys) Direct('S', k, std::string(1 + i % 2 * 20, 'a' + i)), i++;
    if (c_.kind == SKIP) { Sync(); m_ = pend_; }
    touched_.clear();
    removed_ = false;
  }

  ~Case() { it_.reset(); }

 private:
  const std::string fifty_ = std::string(50, 'w');
  std::string id_;
  const Cfg& c_;
  LDb db_;
  std::unique_ptr<DBM::Iterator> it_;
  OMap m_, pend_;
  std::set<Pos> cand_;
  std::string err_;
  int step_ = 0;
  Pass pass_ = NOPASS;
  std::string at_;
  std::set<std::string> seen_, touched_, base_;
  bool removed_ = false, maybe_lost_ = false;
  int skipped_ = 0;
};

}  // namespace itc
