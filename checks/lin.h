// Concurrent operations on a DBM, checked for linearizability (Wing & Gong) against a sequential map.
#pragma once
#include <algorithm>
#include <ctime>
#include <map>
#include <memory>
#include <set>
#include "conc.h"
#include "tkrzw_dbm.h"
#include "tkrzw_str_util.h"

enum LKind { Q_SET, Q_SETNEW, Q_GET, Q_REMOVE, Q_APPEND, Q_INCR, Q_CMPEX, Q_COUNT, Q_CLEAR, Q_REKEY, Q_SWAP, Q_READ2, Q_CMPMULTI, Q_POP, Q_TOGGLE,
             Q_REBUILD, Q_SYNC, Q_MULTISET, Q_COPY, Q_GETOLD, Q_COPYKEY, Q_EACHADD, Q_PUSH, Q_INCR2, Q_REVERT, Q_SETOLD, Q_REMOVEOLD, Q_CMPREAD, Q_STAT, Q_EACHGET, Q_ITAPPEND, Q_EACHREC, Q_PEEK, Q_NUM };
static const char* kLNames[] = {"Set", "SetNew", "Get", "Remove", "Append", "Increment", "CompareExchange", "Count", "Clear", "Rekey", "Swap", "Read2", "CompareExchangeMulti",
                                "PopFirst", "Toggle", "Rebuild", "Synchronize", "SetBoth", "CopyFileData", "SetGetOld", "CopyKey", "EachAdd", "PushLast", "IncrementBoth", "Revert",
                                "SetOld", "RemoveOld", "CompareRead", "Inspect", "EachRead", "IteratorAppend", "EachRecord", "ProcessFirst"};
struct LOp { int kind; int k = 0, v = 0, k2 = 0; };
struct LRec { LOp op; int thread = 0; long inv = 0, res = 0; std::string r; };

struct LScen {
  std::string name;
  std::vector<LOp> setup;
  std::vector<std::vector<LOp>> threads;
  int bound = 2;
};
typedef std::map<std::string, std::string> LMap;
struct LState {
  LMap m;
  bool copies = false;   // whether the copied files are read
  LMap pend;   // SkipDBM: what the next synchronization does ("-": removal, "+v")
  bool operator<(const LState& o) const { return m != o.m ? m < o.m : pend < o.pend; }
};

struct LDb {
  std::unique_ptr<tkrzw::DBM> dbm;
  std::string path;
  bool ordered = false;
  bool skip = false;                                   // updates are visible after Synchronize
  std::function<tkrzw::Status()> rebuild;
  std::function<tkrzw::Status(bool)> sync;             // instead of Synchronize
  std::function<tkrzw::Status()> reopen;               // closes and opens
  std::function<std::string()> validate;
  std::map<int, std::unique_ptr<tkrzw::DBM>> spare;    // for reading copies of the file, by thread
  LMap initial;                                        // what it has when it is made
};
struct LTable {
  std::vector<std::string> keys = {"a", "b", "c", "d"};
  std::vector<std::string> values = {"1", "22", std::string(60, 'x'), ""};
};

inline std::string LCode(const tkrzw::Status& s) {
  using tkrzw::Status;
  switch (s.GetCode()) {
    case Status::SUCCESS: return "S";
    case Status::NOT_FOUND_ERROR: return "N";
    case Status::DUPLICATION_ERROR: return "D";
    case Status::INFEASIBLE_ERROR: return "I";
    default: return "E:" + tkrzw::ToString(s);
  }
}
inline std::string LNum(int64_t n) { return tkrzw::IntToStrBigEndian(n); }

inline std::string LExec(LDb& db, const LTable& t, const LOp& o) {
  using namespace tkrzw;
  DBM* d = db.dbm.get();
  const std::string& k = t.keys[o.k];
  const std::string& k2 = t.keys[o.k2];
  const std::string& v = t.values[o.v];
  switch (o.kind) {
    case Q_SET: return LCode(d->Set(k, v));
    case Q_SETNEW: return LCode(d->Set(k, v, false));
    case Q_GETOLD: case Q_SETOLD: { std::string old = "-"; Status s = d->Set(k, v, true, &old); return LCode(s) + old; }
    case Q_GET: { std::string x; Status s = d->Get(k, &x); return LCode(s) + x; }
    case Q_REMOVE: return LCode(d->Remove(k));
    case Q_REMOVEOLD: { std::string old = "-"; Status s = d->Remove(k, &old); return LCode(s) + old; }
    case Q_APPEND: return LCode(d->Append(k, v, ","));
    case Q_INCR: { int64_t c = -1; Status s = d->Increment(k, 1 + o.v, &c, 100); return LCode(s) + std::to_string(c); }
    case Q_CMPEX: return LCode(d->CompareExchange(k, t.values[o.k2], v));
    case Q_CMPREAD: { std::string act; bool found = false; Status s = d->CompareExchange(k, std::string_view(), v, &act, &found); return LCode(s) + (found ? act : "-"); }
    case Q_COUNT: { int64_t c = -1; Status s = d->Count(&c); return LCode(s) + std::to_string(c); }
    case Q_CLEAR: return LCode(d->Clear());
    case Q_REKEY: case Q_COPYKEY: { std::string x = "-"; Status s = d->Rekey(k, k2, true, o.kind == Q_COPYKEY, &x); return LCode(s) + x; }
    case Q_SWAP: case Q_READ2: {
      std::string a = "-", b = "-", r;
      auto rd = [](std::string* out) {
        return [out](std::string_view, std::string_view val) -> std::string_view {
          if (val.data() != DBM::RecordProcessor::NOOP.data()) *out = "+" + std::string(val);
          return DBM::RecordProcessor::NOOP;
        };
      };
      auto wr = [](const std::string* in) {
        return [in](std::string_view, std::string_view) -> std::string_view {
          if ((*in)[0] == '-') return DBM::RecordProcessor::REMOVE;
          return std::string_view(*in).substr(1);
        };
      };
      Status s;
      if (o.kind == Q_SWAP) s = d->ProcessMulti({{k, rd(&a)}, {k2, rd(&b)}, {k, wr(&b)}, {k2, wr(&a)}}, true);
      else s = d->ProcessMulti({{k, rd(&a)}, {k2, rd(&b)}}, false);
      return LCode(s) + a + "|" + b;
    }
    case Q_MULTISET: {
      auto wr = [&](std::string_view, std::string_view) -> std::string_view { return v; };
      return LCode(d->ProcessMulti({{k, wr}, {k2, wr}}, true));
    }
    case Q_INCR2: {
      // Adds one to both, reading and writing in one atomic step.
      std::string sa, sb;
      auto inc = [](std::string* st) {
        return [st](std::string_view, std::string_view val) -> std::string_view {
          int64_t n = 0;
          if (val.data() != DBM::RecordProcessor::NOOP.data()) n = tkrzw::StrToIntBigEndian(val);
          *st = LNum(n + 1);
          return *st;
        };
      };
      return LCode(d->ProcessMulti({{k, inc(&sa)}, {k2, inc(&sb)}}, true));
    }
    case Q_CMPMULTI: return LCode(d->CompareExchangeMulti({{k, DBM::ANY_DATA}, {k2, std::string_view()}}, {{k, std::string_view()}, {k2, v}}));
    case Q_POP: { std::string x, y; Status s = d->PopFirst(&x, &y); return LCode(s) + (s == Status::SUCCESS ? x + "=" + y : ""); }
    case Q_PEEK: {
      std::string x;
      Status s = d->ProcessFirst([&](std::string_view key, std::string_view val) -> std::string_view {
        x = std::string(key) + "=" + (val.data() == DBM::RecordProcessor::NOOP.data() ? "-" : std::string(val));
        return DBM::RecordProcessor::NOOP;
      }, o.v != 0);
      return LCode(s) + x;
    }
    case Q_PUSH: { std::string x; Status s = d->PushLast(v, 1.0, &x); return LCode(s) + x; }
    case Q_TOGGLE: {
      std::string seen = "-";
      Status s = d->Process(k, [&](std::string_view, std::string_view val) -> std::string_view {
        if (val.data() == DBM::RecordProcessor::NOOP.data()) return v;
        seen = "+" + std::string(val);
        return DBM::RecordProcessor::REMOVE;
      }, true);
      return LCode(s) + seen;
    }
    case Q_EACHADD: case Q_EACHGET: {
      std::vector<std::string> seen;
      std::string tmp;
      Status s = d->ProcessEach([&](std::string_view key, std::string_view val) -> std::string_view {
        if (val.data() == DBM::RecordProcessor::NOOP.data()) return DBM::RecordProcessor::NOOP;
        seen.push_back(std::string(key) + "=" + std::string(val));
        if (o.kind == Q_EACHGET) return DBM::RecordProcessor::NOOP;
        tmp = std::string(val) + v;
        return tmp;
      }, o.kind == Q_EACHADD);
      std::sort(seen.begin(), seen.end());
      std::string r = LCode(s);
      for (auto& x : seen) r += x + ";";
      return r;
    }
    case Q_REBUILD: return LCode(db.rebuild ? db.rebuild() : d->Rebuild());
    case Q_SYNC: return LCode(db.sync ? db.sync(o.v != 0) : d->Synchronize(o.v != 0));
    case Q_COPY: {
      const int th = mc::CurrentThread();
      const std::string dest = db.path + ".copy" + std::to_string(th);
      std::string r = LCode(d->CopyFileData(dest, o.v != 0));
      auto it = db.spare.find(th);
      if (r != "S" || it == db.spare.end()) return r;
      mc::NoSched(true);
      DBM* c = it->second.get();
      Status s = c->Open(dest, false);
      if (s != Status::SUCCESS) r += "open:" + ToString(s);
      std::map<std::string, std::string> m;
      s = c->ProcessEach([&](std::string_view key, std::string_view val) -> std::string_view {
        if (val.data() != DBM::RecordProcessor::NOOP.data()) m.emplace(key, val);
        return DBM::RecordProcessor::NOOP;
      }, false);
      if (s != Status::SUCCESS) r += "each:" + ToString(s);
      c->Close();
      ::unlink(dest.c_str());
      mc::NoSched(false);
      for (auto& x : m) r += ";" + x.first + "=" + x.second;
      return r;
    }
    case Q_STAT: {
      d->Inspect();
      int64_t n = -1;
      std::string path;
      double ts = 0;
      bool tobe = false;
      Status s = d->GetFileSize(&n);
      s |= d->GetFilePath(&path);
      s |= d->GetTimestamp(&ts);
      s |= d->ShouldBeRebuilt(&tobe);
      if (!d->IsOpen() || !d->IsWritable() || !d->IsHealthy()) return "unhealthy";
      return LCode(s);
    }
  }
  return "?";
}

// Whether the result is allowed in the state; changes the state.
inline bool LAllow(LState& st, const LTable& t, const LOp& o, const std::string& r, bool ordered, bool skip) {
  using namespace tkrzw;
  const std::string& k = t.keys[o.k];
  const std::string& k2 = t.keys[o.k2];
  const std::string& v = t.values[o.v];
  LMap& m = st.m;
  auto it = m.find(k);
  const bool has = it != m.end();
  const std::string cur = has ? it->second : "";
  auto put = [&](const std::string& kk, const std::string& vv) { if (skip) st.pend[kk] = "+" + vv; else m[kk] = vv; };
  auto del = [&](const std::string& kk) { if (skip) st.pend[kk] = "-"; else m.erase(kk); };
  auto commit = [&] { for (auto& p : st.pend) { if (p.second[0] == '-') m.erase(p.first); else m[p.first] = p.second.substr(1); } st.pend.clear(); };
  switch (o.kind) {
    case Q_SET: if (r != "S") return false; put(k, v); return true;
    case Q_SETNEW: if (r != (has ? "D" : "S")) return false; if (!has) put(k, v); return true;
    case Q_GETOLD: case Q_SETOLD: if (r != "S" + (has ? cur : "-")) return false; put(k, v); return true;
    case Q_GET: return r == (has ? "S" + cur : "N");
    case Q_REMOVE: if (skip) { if (r != "S") return false; del(k); return true; } if (r != (has ? "S" : "N")) return false; if (has) del(k); return true;
    case Q_REMOVEOLD: if (r != (has ? "S" + cur : "N-")) return false; if (has) del(k); return true;
    case Q_APPEND: if (r != "S") return false; put(k, has ? cur + "," + v : v); return true;
    case Q_INCR: { const int64_t n = (has ? (int64_t)StrToIntBigEndian(cur) : 100) + 1 + o.v; if (r != "S" + std::to_string(n)) return false; put(k, LNum(n)); return true; }
    case Q_CMPEX: { const bool ok = has && cur == t.values[o.k2]; if (r != (ok ? "S" : "I")) return false; if (ok) put(k, v); return true; }
    case Q_CMPREAD: if (r != (has ? "I" + cur : "S-")) return false; if (!has) put(k, v); return true;
    case Q_COUNT: return r == "S" + std::to_string(m.size());
    case Q_CLEAR: if (r != "S") return false; m.clear(); st.pend.clear(); return true;
    case Q_REKEY: case Q_COPYKEY: if (r != (has ? "S" + cur : "N-")) return false; if (has) { if (o.kind == Q_REKEY) del(k); put(k2, cur); } return true;
    case Q_SWAP: case Q_READ2: {
      auto i2 = m.find(k2);
      const std::string a = has ? "+" + cur : "-", b = i2 != m.end() ? "+" + i2->second : "-";
      if (r != "S" + a + "|" + b) return false;
      if (o.kind == Q_SWAP) { if (b[0] == '-') del(k); else put(k, b.substr(1)); if (a[0] == '-') del(k2); else put(k2, a.substr(1)); }
      return true;
    }
    case Q_MULTISET: if (r != "S") return false; put(k, v); put(k2, v); return true;
    case Q_INCR2: { if (r != "S") return false; for (auto& x : {k, k2}) { auto j = m.find(x); put(x, LNum((j == m.end() ? 0 : (int64_t)StrToIntBigEndian(j->second)) + 1)); } return true; }
    case Q_CMPMULTI: { const bool ok = has && m.find(k2) == m.end(); if (r != (ok ? "S" : "I")) return false; if (ok) { del(k); put(k2, v); } return true; }
    case Q_POP: {
      if (r == "N") return m.empty();
      if (r[0] != 'S') return false;
      for (auto j = m.begin(); j != m.end(); ++j) {
        if (r == "S" + j->first + "=" + j->second) { del(std::string(j->first)); return true; }
        if (ordered) return false;
      }
      return false;
    }
    case Q_PUSH: {
      uint64_t ts = 100000000;
      while (m.count(LNum(ts))) ts++;
      if (r != "S" + LNum(ts)) return false;
      put(LNum(ts), v);
      return true;
    }
    case Q_TOGGLE: if (r != "S" + (has ? "+" + cur : "-")) return false; if (has) del(k); else put(k, v); return true;
    case Q_EACHADD: case Q_EACHGET: {
      std::string x = "S";
      for (auto& p : m) x += p.first + "=" + p.second + ";";
      if (r != x) return false;
      if (o.kind == Q_EACHGET) return true;
      LMap c = m;
      for (auto& p : c) put(p.first, p.second + v);
      return true;
    }
    case Q_REBUILD: if (r != "S") return false; if (skip) commit(); return true;
    case Q_SYNC: if (r != "S") return false; if (skip) commit(); return true;
    case Q_COPY: {
      if (skip) commit();
      if (r == "S") return m.empty() || !st.copies;
      std::string x = "S";
      for (auto& p : m) x += ";" + p.first + "=" + p.second;
      return r == x;
    }
    case Q_STAT: return r == "S";
    case Q_PEEK: {
      if (r == "N") return m.empty() || !ordered;
      for (auto& p : m) { if (r == "S" + p.first + "=" + p.second) return true; if (ordered) break; }
      return false;
    }
    case Q_EACHREC: if (!has || r != "S" + cur) return false; put(k, cur + v); return true;
    case Q_ITAPPEND: if (!has || r != "S" + cur) return false; put(k, cur + "," + v); return true;
  }
  return false;
}

struct LinChecker {
  const std::vector<LRec>* h;
  const LTable* t;
  bool ordered, skip;
  std::set<std::pair<uint32_t, LState>> dead;
  std::set<LState> finals;
  bool all = false;
  // Searches the orders consistent with real time. `accept` decides on the final state.
  bool Search(uint32_t done, const LState& st, const std::function<bool(const LState&)>& accept) {
    const int n = h->size();
    if (done == (n == 32 ? 0xffffffffu : (1u << n) - 1)) return accept(st);
    if (dead.count({done, st})) return false;
    long minres = INT64_MAX;
    for (int i = 0; i < n; i++) if (!(done >> i & 1)) minres = std::min(minres, (*h)[i].res);
    for (int i = 0; i < n; i++) {
      if (done >> i & 1) continue;
      const LRec& r = (*h)[i];
      if (r.inv > minres) continue;
      LState s2 = st;
      if (LAllow(s2, *t, r.op, r.r, ordered, skip) && Search(done | 1u << i, s2, accept)) return true;
    }
    dead.insert({done, st});
    return false;
  }
};

inline std::string LBrief(const std::string& s) {
  std::string r;
  for (unsigned char c : s.substr(0, 40)) {
    if (c >= 32 && c < 127) r += c; else { char b[8]; snprintf(b, sizeof(b), "\\%02x", c); r += b; }
  }
  return r + (s.size() > 40 ? "..(" + std::to_string(s.size()) + ")" : "");
}
inline std::string LHist(const std::vector<LRec>& h) {
  std::string s;
  for (auto& r : h)
    s += "  T" + std::to_string(r.thread) + " [" + std::to_string(r.inv) + "," + std::to_string(r.res) + "] " + kLNames[r.op.kind] + "(" + std::to_string(r.op.k) + "," +
         std::to_string(r.op.v) + "," + std::to_string(r.op.k2) + ") -> " + LBrief(r.r) + "\n";
  return s;
}
inline std::string LDump(const LMap& m) {
  std::string s;
  for (auto& p : m) s += LBrief(p.first) + "=" + LBrief(p.second) + " ";
  return s;
}

// Everything in the database through an iterator and through Get; "" in *err if consistent.
inline LMap LContent(LDb& db, const LTable& t, std::string* err) {
  using namespace tkrzw;
  LMap m;
  auto it = db.dbm->MakeIterator();
  it->First();
  std::string last;
  int n = 0;
  while (true) {
    std::string k, v;
    Status s = it->Get(&k, &v);
    if (s == Status::NOT_FOUND_ERROR) break;
    if (s != Status::SUCCESS) { *err = "iterator: " + ToString(s); return m; }
    if (!m.emplace(k, v).second) { *err = "the iterator gives " + LBrief(k) + " twice"; return m; }
    if (db.ordered && n && !(last < k)) { *err = "the iterator is out of order"; return m; }
    last = k;
    if (++n > 1000) { *err = "the iterator does not end"; return m; }
    it->Next();
  }
  int64_t c = -1;
  Status s = db.dbm->Count(&c);
  if (s != Status::SUCCESS || c != (int64_t)m.size()) { *err = "Count is " + std::to_string(c) + " with " + std::to_string(m.size()) + " records"; return m; }
  for (auto& k : t.keys) {
    std::string v;
    s = db.dbm->Get(k, &v);
    auto j = m.find(k);
    if (j == m.end() ? s != Status::NOT_FOUND_ERROR : s != Status::SUCCESS || v != j->second) { *err = "Get(" + LBrief(k) + ") is " + ToString(s) + " " + LBrief(v); return m; }
  }
  if (db.validate) { auto e = db.validate(); if (!e.empty()) { *err = e; return m; } }
  return m;
}

// Runs one scenario on a database made by `make`, and checks every schedule of it.
inline void RunLin(const std::string& dbname, const LTable& t, const LScen& sc, const std::function<void(LDb*)>& make, double share, bool reopen = true,
                   mc::ExploreOptions eo = mc::ExploreOptions()) {
  mc::RunScenario(dbname + "." + sc.name, sc.bound, [&] {
    mc::NoSched(true);
    LDb db;
    make(&db);
    LState init;
    init.m = db.initial;
    for (auto& o : sc.setup) {
      const std::string r = LExec(db, t, o);
      if (!LAllow(init, t, o, r, db.ordered, db.skip)) mc::Fail("the set-up operation " + std::string(kLNames[o.kind]) + " gives " + LBrief(r));
    }
    for (size_t i = 0; i < sc.threads.size(); i++)
      for (auto& o : sc.threads[i])
        if (o.kind == Q_COPY) { db.spare[i + 1] = db.dbm->MakeDBM(); init.copies = true; }
    std::vector<LRec> hist;
    std::vector<std::vector<LRec>> recs(sc.threads.size());
    std::vector<std::function<void()>> fs;
    for (size_t i = 0; i < sc.threads.size(); i++) {
      recs[i].resize(sc.threads[i].size());
      fs.push_back([&, i] {
        for (size_t j = 0; j < sc.threads[i].size(); j++) {
          LRec& r = recs[i][j];
          r.op = sc.threads[i][j];
          r.thread = i + 1;
          mc::Point();
          r.inv = mc::Now();
          r.r = LExec(db, t, r.op);
          r.res = mc::Now();
        }
      });
    }
    mc::NoSched(false);
    Par(fs);
    mc::NoSched(true);
    for (auto& v : recs) for (auto& r : v) hist.push_back(r);
    std::string out;
    for (auto& r : hist) out += LBrief(r.r) + " ";
    LinChecker c;
    c.h = &hist;
    c.t = &t;
    c.ordered = db.ordered;
    c.skip = db.skip;
    std::string err;
    if (db.skip) { tkrzw::Status s = db.sync ? db.sync(false) : db.dbm->Synchronize(false); if (s != tkrzw::Status::SUCCESS) mc::Fail("final Synchronize: " + tkrzw::ToString(s)); }
    const LMap fin = LContent(db, t, &err);
    if (!err.empty()) mc::Fail("after the threads ended: " + err + "\n" + LHist(hist) + "content: " + LDump(fin));
    if (!c.Search(0, init, [&](const LState& s) {
          LState x = s;
          for (auto& p : x.pend) { if (p.second[0] == '-') x.m.erase(p.first); else x.m[p.first] = p.second.substr(1); }
          return x.m == fin;
        }))
      mc::Fail("not linearizable:\n  start: " + LDump(init.m) + "\n" + LHist(hist) + "  end: " + LDump(fin));
    out += "=> " + LDump(fin);
    if (reopen && db.reopen) {
      tkrzw::Status s = db.reopen();
      if (s != tkrzw::Status::SUCCESS) mc::Fail("reopening: " + tkrzw::ToString(s) + "\n" + LHist(hist));
      const LMap again = LContent(db, t, &err);
      if (!err.empty() || again != fin) mc::Fail("after reopening: " + err + "\n" + LHist(hist) + "before: " + LDump(fin) + "\nafter: " + LDump(again));
    }
    mc::Outcome(out);
    db.dbm.reset();
    mc::NoSched(false);
  }, share, eo);
}

// Divides the time of the run between the scenarios that are left.
struct TimeShare {
  double end;
  int left = 0;
  static double Wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
  TimeShare() { end = Wall() + mc::args().time; }
  double Next() { const double l = std::max(0.5, end - Wall()); return std::max(0.3, left > 0 ? l * 2.5 / left : l); }
  void Done() { left--; }
};
// Collects the scenarios first, so that the time can be divided.
struct LinSuite {
  struct Item { std::function<void(double)> run; };
  std::vector<std::function<void(double)>> items;
  void Add(const std::string& dbname, const LTable& t, const LScen& sc, const std::function<void(LDb*)>& make, bool reopen = true, mc::ExploreOptions eo = mc::ExploreOptions()) {
    items.push_back([=](double share) { RunLin(dbname, t, sc, make, share, reopen, eo); });
  }
  void AddRun(const std::function<void(double)>& f) { items.push_back(f); }
  void Run() {
    TimeShare ts;
    ts.left = items.size();
    for (auto& f : items) { f(ts.Next()); ts.Done(); }
  }
};
