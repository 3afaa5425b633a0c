// Operation sequences on a DBM compared, operation by operation, with a reference map.
#pragma once
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "conc.h"
#include "mc.h"
#include "tkrzw_dbm.h"
#include "tkrzw_key_comparators.h"
#include "tkrzw_str_util.h"

typedef std::function<bool(const std::string&, const std::string&)> Less;
typedef std::map<std::string, std::string, Less> Model;
inline bool ByteLess(const std::string& a, const std::string& b) { return a < b; }
inline Model MakeModel(const Less& l = ByteLess) { return Model(l); }

enum OpKind {
  SET, SETNEW, GET, REMOVE, APPEND, APPEND_D, CMPEX, CMPEX_NONE, CMPEX_DEL, CMPEX_ANY, INCR, REKEY, REKEY_NOW, COPYKEY,
  MULTI_SWAP, MULTI_SETREM, CMPEX_MULTI, POPFIRST, PUSHLAST, CLEAR, REBUILD, SYNC, SYNC_HARD, REOPEN, EACH_SET, EACH_REMOVE,
  PROC_NOOP, PROC_SET, PROC_REMOVE, IT_SET, IT_REMOVE, SETMULTI, REMOVEMULTI, GETMULTI, CMPEX_SET, CMPEX_PEEK, NUM_OPS
};
static const char* kOpNames[] = {
  "SET", "SETNEW", "GET", "REMOVE", "APPEND", "APPEND_D", "CMPEX", "CMPEX_NONE", "CMPEX_DEL", "CMPEX_ANY", "INCR", "REKEY",
  "REKEY_NOW", "COPYKEY", "MULTI_SWAP", "MULTI_SETREM", "CMPEX_MULTI", "POPFIRST", "PUSHLAST", "CLEAR", "REBUILD", "SYNC",
  "SYNC_HARD", "REOPEN", "EACH_SET", "EACH_REMOVE", "PROC_NOOP", "PROC_SET", "PROC_REMOVE", "IT_SET", "IT_REMOVE",
  "SETMULTI", "REMOVEMULTI", "GETMULTI", "CMPEX_SET", "CMPEX_PEEK"};

struct Op { int kind; int k = 0; int v = 0; int k2 = 0; };

inline std::string Brief(const std::string& s) {
  if (s.size() > 24) return s.substr(0, 8) + "..(" + std::to_string(s.size()) + ")";
  std::string r;
  for (unsigned char c : s) {
    if (c >= 33 && c < 127) r += c;
    else { char b[8]; snprintf(b, sizeof(b), "\\%02x", c); r += b; }
  }
  return r;
}
inline std::string OpText(const Op& o) {
  return std::string(kOpNames[o.kind]) + "(" + std::to_string(o.k) + "," + std::to_string(o.v) + "," + std::to_string(o.k2) + ")";
}
inline std::string SeqText(const std::vector<Op>& s) {
  std::string r;
  for (auto& o : s) r += OpText(o) + " ";
  return r;
}

// The subject: a DBM object with a way to close and open it again.
struct Subject {
  std::unique_ptr<tkrzw::DBM> dbm;
  bool ordered = false;
  bool lru = false;                                // CacheDBM: popping takes the oldest
  std::function<tkrzw::Status()> reopen;           // closes and opens
  std::function<tkrzw::Status(bool)> sync;         // default: Synchronize(hard)
  std::function<tkrzw::Status()> rebuild;
  std::function<std::string()> validate;           // extra structural checks; empty if fine
};

struct Keys {
  std::vector<std::string> keys, values;
};

inline std::string ModelGetStr(const Model& m, const std::string& k) {
  auto it = m.find(k);
  return it == m.end() ? "-" : "+" + it->second;
}

// Applies one operation to both sides. Returns an error text, or nothing.
inline std::string ApplyOp(Subject& s, Model& m, const Keys& t, const Op& o) {
  using namespace tkrzw;
  DBM* d = s.dbm.get();
  const std::string& k = t.keys[o.k];
  const std::string& k2 = t.keys[o.k2];
  const std::string& v = t.values[o.v];
  auto bad = [&](const std::string& w) { return OpText(o) + ": " + w; };
  auto expect = [&](const Status& st, Status::Code c) -> std::string {
    if (st == c) return "";
    return bad("returned " + ToString(st) + ", expected " + ToString(Status(c)));
  };
  auto put = [&](const std::string& key, const std::string& val) { m[key] = val; };
  const bool has = m.find(k) != m.end();
  switch (o.kind) {
    case SET: {
      std::string old = "?";
      Status st = d->Set(k, v, true, &old);
      auto e = expect(st, Status::SUCCESS);
      if (!e.empty()) return e;
      if (has && old != m[k]) return bad("the old value is wrong: " + Brief(old));
      if (!has && old != "?") return bad("an old value of a missing record");
      put(k, v);
      return "";
    }
    case SETNEW: {
      std::string old = "?";
      Status st = d->Set(k, v, false, &old);
      auto e = expect(st, has ? Status::DUPLICATION_ERROR : Status::SUCCESS);
      if (!e.empty()) return e;
      if (has && old != m[k]) return bad("the old value is wrong: " + Brief(old));
      if (!has) put(k, v);
      return "";
    }
    case GET: {
      std::string val = "?";
      Status st = d->Get(k, &val);
      auto e = expect(st, has ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
      if (!e.empty()) return e;
      if (has && val != m[k]) return bad("got " + Brief(val) + " instead of " + Brief(m[k]));
      return "";
    }
    case REMOVE: {
      std::string old = "?";
      Status st = d->Remove(k, &old);
      auto e = expect(st, has ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
      if (!e.empty()) return e;
      if (has && old != m[k]) return bad("the old value is wrong");
      m.erase(k);
      return "";
    }
    case APPEND: case APPEND_D: {
      const std::string delim = o.kind == APPEND_D ? "," : "";
      Status st = d->Append(k, v, delim);
      auto e = expect(st, Status::SUCCESS);
      if (!e.empty()) return e;
      if (has) m[k] = m[k] + delim + v; else put(k, v);
      return "";
    }
    case CMPEX: case CMPEX_NONE: case CMPEX_DEL: case CMPEX_ANY: case CMPEX_SET: case CMPEX_PEEK: {
      // CMPEX: value k2 -> v; CMPEX_NONE: missing -> v; CMPEX_DEL: value v -> missing; CMPEX_ANY: any -> v;
      // CMPEX_SET: any -> removed; CMPEX_PEEK: any -> untouched.
      const std::string exp = o.kind == CMPEX ? t.values[o.k2] : v;
      std::string_view ev = o.kind == CMPEX_NONE ? std::string_view() :
          o.kind == CMPEX_ANY || o.kind == CMPEX_SET || o.kind == CMPEX_PEEK ? DBM::ANY_DATA : std::string_view(exp);
      std::string_view dv = o.kind == CMPEX_DEL || o.kind == CMPEX_SET ? std::string_view() :
          o.kind == CMPEX_PEEK ? DBM::ANY_DATA : std::string_view(v);
      std::string act = "?";
      bool found = !has;
      Status st = d->CompareExchange(k, ev, dv, &act, &found);
      const bool ok = o.kind == CMPEX_NONE ? !has :
          o.kind == CMPEX_ANY || o.kind == CMPEX_SET || o.kind == CMPEX_PEEK ? has : has && m[k] == exp;
      auto e = expect(st, ok ? Status::SUCCESS : Status::INFEASIBLE_ERROR);
      if (!e.empty()) return e;
      if (found != has) return bad("the found flag is wrong");
      if (has && act != m[k]) return bad("the actual value is wrong: " + Brief(act));
      if (ok && o.kind != CMPEX_PEEK) { if (dv.data() == nullptr) m.erase(k); else put(k, v); }
      return "";
    }
    case INCR: {
      int64_t cur = -777;
      const int64_t inc = o.v - 1, init = o.k2 * 100;
      Status st = d->Increment(k, inc, &cur, init);
      auto e = expect(st, Status::SUCCESS);
      if (!e.empty()) return e;
      const int64_t num = (has ? static_cast<int64_t>(StrToIntBigEndian(m[k])) : init) + inc;
      if (cur != num) return bad("current is " + std::to_string(cur));
      put(k, IntToStrBigEndian(num));
      return "";
    }
    case REKEY: case REKEY_NOW: case COPYKEY: {
      const bool over = o.kind != REKEY_NOW, copy = o.kind == COPYKEY;
      std::string val = "?";
      Status st = d->Rekey(k, k2, over, copy, &val);
      Status::Code c = Status::SUCCESS;
      if (!over && m.find(k2) != m.end()) c = Status::DUPLICATION_ERROR;
      if (!has) c = Status::NOT_FOUND_ERROR;
      auto e = expect(st, c);
      if (!e.empty()) return e;
      if (c == Status::SUCCESS) {
        const std::string x = m[k];
        if (val != x) return bad("the value is wrong");
        if (!copy) m.erase(k);
        put(k2, x);
      }
      return "";
    }
    case MULTI_SWAP: {
      // Reads k and k2, then writes them exchanged, in one atomic step.
      std::string a = "-", b = "-";
      int calls = 0;
      auto rd = [&](std::string* out) {
        return [&calls, out](std::string_view key, std::string_view val) -> std::string_view {
          calls++;
          if (val.data() != DBM::RecordProcessor::NOOP.data()) *out = "+" + std::string(val);
          return DBM::RecordProcessor::NOOP;
        };
      };
      auto wr = [&](const std::string* in) {
        return [&calls, in](std::string_view key, std::string_view val) -> std::string_view {
          calls++;
          if ((*in)[0] == '-') return DBM::RecordProcessor::REMOVE;
          return std::string_view(*in).substr(1);
        };
      };
      Status st = d->ProcessMulti({{k, rd(&a)}, {k2, rd(&b)}, {k, wr(&b)}, {k2, wr(&a)}}, true);
      auto e = expect(st, Status::SUCCESS);
      if (!e.empty()) return e;
      if (calls != 4) return bad(std::to_string(calls) + " callbacks");
      if (a != ModelGetStr(m, k) || b != ModelGetStr(m, k2)) return bad("wrong values are seen");
      if (b[0] == '-') m.erase(k); else put(k, b.substr(1));
      if (a[0] == '-') m.erase(k2); else put(k2, a.substr(1));
      return "";
    }
    case MULTI_SETREM: {
      int calls = 0;
      Status st = d->ProcessMulti({{k2, [&](std::string_view, std::string_view) -> std::string_view { calls++; return DBM::RecordProcessor::REMOVE; }},
                                   {k, [&](std::string_view, std::string_view) -> std::string_view { calls++; return v; }}}, true);
      auto e = expect(st, Status::SUCCESS);
      if (!e.empty()) return e;
      if (calls != 2) return bad(std::to_string(calls) + " callbacks");
      m.erase(k2);
      put(k, v);
      return "";
    }
    case CMPEX_MULTI: {
      // If k exists with any value and k2 is missing: k goes away, k2 gets v.
      Status st = d->CompareExchangeMulti({{k, DBM::ANY_DATA}, {k2, std::string_view()}}, {{k, std::string_view()}, {k2, v}});
      const bool ok = has && m.find(k2) == m.end();
      auto e = expect(st, ok ? Status::SUCCESS : Status::INFEASIBLE_ERROR);
      if (!e.empty()) return e;
      if (ok) { m.erase(k); put(k2, v); }
      return "";
    }
    case POPFIRST: {
      std::string key = "?", val = "?";
      Status st = d->PopFirst(&key, &val);
      auto e = expect(st, m.empty() ? Status::NOT_FOUND_ERROR : Status::SUCCESS);
      if (!e.empty()) return e;
      if (!m.empty()) {
        auto it = m.find(key);
        if (it == m.end() || it->second != val) return bad("a record that was not there");
        if (s.ordered && it != m.begin()) return bad("not the first record");
        m.erase(it);
      }
      return "";
    }
    case PUSHLAST: {
      std::string key;
      const double wt = 1.5 * o.k;
      Status st = d->PushLast(v, wt, &key);
      auto e = expect(st, Status::SUCCESS);
      if (!e.empty()) return e;
      uint64_t ts = wt * 100000000;
      while (m.find(IntToStrBigEndian(ts)) != m.end()) ts++;
      if (key != IntToStrBigEndian(ts)) return bad("the key is wrong");
      put(key, v);
      return "";
    }
    case CLEAR: {
      auto e = expect(d->Clear(), Status::SUCCESS);
      if (!e.empty()) return e;
      m.clear();
      return "";
    }
    case REBUILD: return expect(s.rebuild ? s.rebuild() : d->Rebuild(), Status::SUCCESS);
    case SYNC: return expect(s.sync ? s.sync(false) : d->Synchronize(false), Status::SUCCESS);
    case SYNC_HARD: return expect(s.sync ? s.sync(true) : d->Synchronize(true), Status::SUCCESS);
    case REOPEN: return expect(s.reopen(), Status::SUCCESS);
    case EACH_SET: case EACH_REMOVE: {
      // Records whose value has an odd size are changed, or removed.
      std::map<std::string, std::string> seen;
      int dup = 0, empties = 0, bad_empty = 0;
      size_t n = 0;
      const std::string nv = v + "!";
      Status st = d->ProcessEach([&](std::string_view key, std::string_view val) -> std::string_view {
        if (key.data() == DBM::RecordProcessor::NOOP.data() || val.data() == DBM::RecordProcessor::NOOP.data()) {
          empties++;
          if (empties == 2 && n != m.size()) bad_empty++;
          if (empties == 1 && n != 0) bad_empty++;
          return DBM::RecordProcessor::NOOP;
        }
        n++;
        if (!seen.emplace(key, val).second) dup++;
        if (val.size() % 2 == 0) return DBM::RecordProcessor::NOOP;
        return o.kind == EACH_SET ? std::string_view(nv) : DBM::RecordProcessor::REMOVE;
      }, true);
      auto e = expect(st, Status::SUCCESS);
      if (!e.empty()) return e;
      if (dup) return bad("a record is visited twice");
      if (empties != 2 || bad_empty) return bad("the calls before and after the records are wrong");
      if (seen.size() != m.size()) return bad("visits " + std::to_string(seen.size()) + " of " + std::to_string(m.size()) + " records");
      for (auto& r : seen) { auto it = m.find(r.first); if (it == m.end() || it->second != r.second) return bad("visits a wrong record"); }
      for (auto it = m.begin(); it != m.end();) {
        if (it->second.size() % 2) {
          if (o.kind == EACH_SET) { it->second = nv; ++it; } else it = m.erase(it);
        } else ++it;
      }
      return "";
    }
    case PROC_NOOP: case PROC_SET: case PROC_REMOVE: {
      std::string seen = "?";
      int calls = 0;
      Status st = d->Process(k, [&](std::string_view key, std::string_view val) -> std::string_view {
        calls++;
        if (std::string(key) != k && m.find(std::string(key)) == m.end()) seen = "wrong key";
        else seen = val.data() == DBM::RecordProcessor::NOOP.data() ? "-" : "+" + std::string(val);
        return o.kind == PROC_NOOP ? DBM::RecordProcessor::NOOP : o.kind == PROC_SET ? std::string_view(v) : DBM::RecordProcessor::REMOVE;
      }, true);
      auto e = expect(st, Status::SUCCESS);
      if (!e.empty()) return e;
      if (calls != 1 || seen != ModelGetStr(m, k)) return bad("the callback sees " + Brief(seen));
      if (o.kind == PROC_SET) put(k, v);
      if (o.kind == PROC_REMOVE) m.erase(k);
      return "";
    }
    case IT_SET: case IT_REMOVE: {
      auto it = d->MakeIterator();
      Status st = it->Jump(k);
      std::string target = k;
      bool there = has;
      if (s.ordered) {
        auto mi = m.lower_bound(k);
        there = mi != m.end();
        if (there) target = mi->first;
      }
      // Jump may or may not tell about a missing record; the access must.
      std::string ok = "?", ov = "?";
      if (st != Status::SUCCESS && st != Status::NOT_FOUND_ERROR) return bad("Jump returned " + ToString(st));
      if (st == Status::NOT_FOUND_ERROR && there) return bad("Jump misses an existing record");
      st = o.kind == IT_SET ? it->Set(v, &ok, &ov) : it->Remove(&ok, &ov);
      auto e = expect(st, there ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
      if (!e.empty()) return e;
      if (there) {
        if (ok != m.find(target)->first || ov != m[target]) return bad("the iterator is at " + Brief(ok));
        if (o.kind == IT_SET) m[target] = v;
        else {
          auto mi = m.find(target);
          mi = m.erase(mi);
          if (s.ordered) {
            std::string nk = "?";
            Status g = it->Get(&nk);
            if (mi == m.end() ? g != Status::NOT_FOUND_ERROR : g != Status::SUCCESS || nk != mi->first)
              return bad("after a removal the iterator is at " + Brief(nk) + " " + ToString(g));
          }
        }
      }
      return "";
    }
    case SETMULTI: {
      Status st = d->SetMulti(std::map<std::string_view, std::string_view>{{k, v}, {k2, v}}, true);
      auto e = expect(st, Status::SUCCESS);
      if (!e.empty()) return e;
      put(k, v); put(k2, v);
      return "";
    }
    case REMOVEMULTI: {
      Status st = d->RemoveMulti(std::vector<std::string_view>{k, k2});
      const bool all = has && m.find(k2) != m.end() && (o.k != o.k2);
      auto e = expect(st, all ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
      if (!e.empty()) return e;
      m.erase(k); m.erase(k2);
      return "";
    }
    case GETMULTI: {
      std::map<std::string, std::string> r;
      Status st = d->GetMulti(std::vector<std::string_view>{k, k2}, &r);
      const bool all = has && m.find(k2) != m.end();
      auto e = expect(st, all ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
      if (!e.empty()) return e;
      std::map<std::string, std::string> x;
      if (has) x[k] = m[k];
      if (m.find(k2) != m.end()) x[k2] = m[k2];
      if (r != x) return bad("wrong records");
      return "";
    }
  }
  return bad("unknown operation");
}

// Compares everything that can be observed with the model.
inline std::string VerifyAll(Subject& s, const Model& m, const Keys& t, int deep = 1) {
  using namespace tkrzw;
  DBM* d = s.dbm.get();
  int64_t n = -1;
  Status st = d->Count(&n);
  if (st != Status::SUCCESS) return "Count: " + ToString(st);
  if (n != (int64_t)m.size()) return "Count is " + std::to_string(n) + " instead of " + std::to_string(m.size());
  if (!s.lru) {
    for (auto& k : t.keys) {
      std::string v;
      st = d->Get(k, &v);
      auto it = m.find(k);
      if (it == m.end() ? st != Status::NOT_FOUND_ERROR : st != Status::SUCCESS || v != it->second)
        return "Get(" + Brief(k) + ") is " + ToString(st) + " " + Brief(v) + " instead of " + Brief(ModelGetStr(m, k));
    }
  }
  // Every record exactly once, in order where there is an order.
  auto it = d->MakeIterator();
  st = it->First();
  if (st != Status::SUCCESS) return "First: " + ToString(st);
  std::vector<std::pair<std::string, std::string>> got;
  while (true) {
    std::string k, v;
    st = it->Get(&k, &v);
    if (st == Status::NOT_FOUND_ERROR) break;
    if (st != Status::SUCCESS) return "iterator Get: " + ToString(st);
    got.emplace_back(k, v);
    if (got.size() > m.size() + 3) return "the iterator does not end";
    st = it->Next();
    if (st == Status::NOT_FOUND_ERROR) break;
    if (st != Status::SUCCESS) return "iterator Next: " + ToString(st);
  }
  std::vector<std::pair<std::string, std::string>> want(m.begin(), m.end());
  auto g2 = got;
  if (!s.ordered) { std::sort(g2.begin(), g2.end()); std::sort(want.begin(), want.end()); }
  if (g2 != want) return "iteration gives " + std::to_string(got.size()) + " records of " + std::to_string(want.size()) + " or wrong ones";
  if (s.ordered && deep > 0) {
    st = it->Last();
    if (st != Status::SUCCESS) return "Last: " + ToString(st);
    got.clear();
    while (true) {
      std::string k, v;
      st = it->Get(&k, &v);
      if (st == Status::NOT_FOUND_ERROR) break;
      if (st != Status::SUCCESS) return "iterator Get: " + ToString(st);
      got.emplace_back(k, v);
      if (got.size() > m.size() + 3) return "the backward iterator does not end";
      st = it->Previous();
      if (st == Status::NOT_FOUND_ERROR) break;
      if (st != Status::SUCCESS) return "iterator Previous: " + ToString(st);
    }
    std::reverse(got.begin(), got.end());
    if (got != want) return "backward iteration gives " + std::to_string(got.size()) + " records of " + std::to_string(want.size()) + " or wrong ones";
  }
  if (s.ordered && deep > 1) {
    for (auto& k : t.keys) {
      for (int mode = 0; mode < 5; mode++) {
        Model::const_iterator mi;
        bool there;
        if (mode == 0) { st = it->Jump(k); mi = m.lower_bound(k); there = mi != m.end(); }
        else if (mode <= 2) {
          st = it->JumpLower(k, mode == 2);
          mi = mode == 2 ? m.upper_bound(k) : m.lower_bound(k);
          there = mi != m.begin();
          if (there) --mi;
        } else {
          st = it->JumpUpper(k, mode == 4);
          mi = mode == 4 ? m.lower_bound(k) : m.upper_bound(k);
          there = mi != m.end();
        }
        static const char* names[] = {"Jump", "JumpLower", "JumpLower inclusive", "JumpUpper", "JumpUpper inclusive"};
        if (st != Status::SUCCESS && (st != Status::NOT_FOUND_ERROR || there))
          return std::string(names[mode]) + "(" + Brief(k) + "): " + ToString(st);
        std::string gk, gv;
        st = it->Get(&gk, &gv);
        if (there ? st != Status::SUCCESS || gk != mi->first || gv != mi->second : st != Status::NOT_FOUND_ERROR)
          return std::string(names[mode]) + "(" + Brief(k) + ") is at " + Brief(gk) + " " + ToString(st);
        if (there) {
          // One step in each direction.
          auto step = [&](bool fwd) -> std::string {
            Status s2 = fwd ? it->Next() : it->Previous();
            if (s2 != Status::SUCCESS && s2 != Status::NOT_FOUND_ERROR) return "step: " + ToString(s2);
            std::string k3;
            s2 = it->Get(&k3);
            auto mj = mi;
            bool t3;
            if (fwd) { ++mj; t3 = mj != m.end(); } else { t3 = mj != m.begin(); if (t3) --mj; }
            if (t3 ? s2 != Status::SUCCESS || k3 != mj->first : s2 != Status::NOT_FOUND_ERROR)
              return std::string(fwd ? "Next" : "Previous") + " after " + names[mode] + "(" + Brief(k) + ") is at " + Brief(k3);
            return "";
          };
          auto e = step(mode % 2 == 0);
          if (!e.empty()) return e;
        }
      }
    }
  }
  if (!s.ordered && deep > 1) {
    for (auto& k : t.keys) {
      st = it->Jump(k);
      std::string gk = "?", gv;
      Status s2 = it->Get(&gk, &gv);
      auto mi = m.find(k);
      if (mi != m.end() && (st != Status::SUCCESS || s2 != Status::SUCCESS || gk != k || gv != mi->second))
        return "Jump(" + Brief(k) + ") is at " + Brief(gk) + " " + ToString(s2);
    }
  }
  std::set<std::string> seen;
  bool dup = false;
  int empties = 0;
  st = d->ProcessEach([&](std::string_view key, std::string_view val) -> std::string_view {
    if (val.data() == DBM::RecordProcessor::NOOP.data()) { empties++; return DBM::RecordProcessor::NOOP; }
    if (!seen.insert(std::string(key)).second) dup = true;
    auto mi = m.find(std::string(key));
    if (mi == m.end() || mi->second != val) dup = true;
    return DBM::RecordProcessor::NOOP;
  }, false);
  if (st != Status::SUCCESS) return "ProcessEach: " + ToString(st);
  if (dup || seen.size() != m.size() || empties != 2) return "ProcessEach visits " + std::to_string(seen.size()) + " of " + std::to_string(m.size());
  if (s.validate) return s.validate();
  return "";
}

// Every operation kind, on the first two keys and a few more.
inline std::vector<Op> Vocabulary() {
  std::vector<Op> a;
  for (int k : {0, 1}) {
    for (int v : {0, 2, 3}) a.push_back({SET, k, v});
    for (auto o : std::vector<Op>{{SETNEW, k, 1}, {REMOVE, k}, {APPEND, k, 2}, {APPEND_D, k, 0}, {CMPEX, k, 3, 2}, {CMPEX_NONE, k, 2}, {CMPEX_DEL, k, 2},
                                  {CMPEX_ANY, k, 1}, {INCR, k, 3, 1}, {REKEY, k, 0, 1 - k}, {REKEY_NOW, k, 0, 1 - k}, {COPYKEY, k, 0, 1 - k},
                                  {PROC_SET, k, 3}, {PROC_REMOVE, k}, {IT_SET, k, 3}, {IT_REMOVE, k}, {MULTI_SETREM, k, 3, 1 - k}, {CMPEX_MULTI, k, 2, 1 - k}})
      a.push_back(o);
  }
  for (auto o : std::vector<Op>{{MULTI_SWAP, 0, 0, 1}, {MULTI_SWAP, 0, 0, 2}, {SET, 2, 3}, {SET, 3, 4}, {REMOVE, 2}, {REMOVE, 3}, {POPFIRST}, {PUSHLAST, 1, 2},
                                {CLEAR}, {REBUILD}, {SYNC}, {SYNC_HARD}, {REOPEN}, {EACH_SET, 0, 3}, {EACH_SET, 0, 0}, {EACH_REMOVE},
                                {SETMULTI, 0, 2, 2}, {REMOVEMULTI, 0, 0, 1}, {GETMULTI, 0, 0, 1}, {PROC_NOOP, 0}, {CMPEX_SET, 0}, {CMPEX_PEEK, 0}, {GET, 0}, {REKEY, 0, 0, 0}})
    a.push_back(o);
  return a;
}

// A family of sequences: every sequence over `alphabet` up to `len`, after `pre`, under each configuration.
struct SeqConfig {
  std::string name;
  std::function<void(Subject*, const std::string& dir)> make;   // fresh and opened
  Less less = ByteLess;
};
struct SeqFamily {
  std::string name;
  Keys keys;
  std::vector<Op> pre;
  std::vector<Op> alphabet;
  int len = 2;
  int deep = 1;
  bool reopen_after = true;
};

struct SeqRunner {
  double deadline = 0;
  bool expired = false;
  long cases = 0;
  std::set<uint64_t> states;
  long index = 0;

  static uint64_t HashState(const std::string& c, const Model& m) {
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](const std::string& s) { for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; } h ^= 0xff; h *= 1099511628211ull; };
    mix(c);
    for (auto& p : m) { mix(p.first); mix(p.second); }
    return h;
  }

  void RunCase(const SeqConfig& c, const SeqFamily& f, const std::vector<Op>& seq) {
    const std::string id = c.name + "|" + f.name + "|" + SeqText(seq);
    if (!mc::args().only.empty() && mc::args().only != id) return;
    mc::SetContext(id);
    alarm(60);
    const std::string dir = Scratch();
    CleanDir(dir);
    {
      Subject s;
      c.make(&s, dir);
      Model m(c.less);
      std::string err;
      for (auto& o : f.pre) { err = ApplyOp(s, m, f.keys, o); if (!err.empty()) break; mc::Stat("transitions", 1); }
      for (auto& o : seq) {
        if (!err.empty()) break;
        err = ApplyOp(s, m, f.keys, o);
        mc::Stat("transitions", 1);
      }
      if (err.empty()) err = VerifyAll(s, m, f.keys, f.deep);
      if (err.empty() && f.reopen_after && s.reopen) {
        tkrzw::Status st = s.reopen();
        if (st != tkrzw::Status::SUCCESS) err = "reopening: " + tkrzw::ToString(st);
        else { err = VerifyAll(s, m, f.keys, f.deep > 0 ? 1 : 0); if (!err.empty()) err = "after reopening: " + err; }
      }
      if (!err.empty()) mc::Violation(id, err);
      states.insert(HashState(c.name, m));
    }
    cases++;
    if (cases == 3) mc::Sample(id);
  }

  void Run(const SeqConfig& c, const SeqFamily& f) {
    for (int len = 0; len <= f.len; len++) {
      std::vector<int> ix(len, 0);
      const int n = f.alphabet.size();
      while (true) {
        if (index++ % mc::args().num_workers == mc::args().worker || !mc::args().only.empty()) {
          if (deadline && (cases & 15) == 0 && Wall() > deadline) { expired = true; mc::Note("time ran out at " + c.name + "|" + f.name); return; }
          std::vector<Op> seq;
          for (int i : ix) seq.push_back(f.alphabet[i]);
          RunCase(c, f, seq);
        }
        int p = len - 1;
        while (p >= 0 && ++ix[p] == n) ix[p--] = 0;
        if (p < 0) break;
      }
    }
  }
  // An explicit list of sequences, produced by a generator that calls back with each.
  void RunGen(const SeqConfig& c, const SeqFamily& f, const std::function<void(const std::function<void(const std::vector<Op>&)>&)>& gen) {
    gen([&](const std::vector<Op>& seq) {
      if (expired) return;
      if (index++ % mc::args().num_workers == mc::args().worker || !mc::args().only.empty()) {
        if (deadline && (cases & 15) == 0 && Wall() > deadline) { expired = true; mc::Note("time ran out at " + c.name + "|" + f.name); return; }
        RunCase(c, f, seq);
      }
    });
  }
  static double Wall() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
  }
  void Start() { deadline = Wall() + mc::args().time; }
  void Finish() {
    alarm(0);
    mc::Stat("traces", cases);
    mc::Stat("states", states.size());
    if (expired) mc::Stat("incomplete", 1);
    CleanDir(Scratch());
  }
};
