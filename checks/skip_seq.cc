// SkipDBM against its reference model: a sorted multimap of committed records plus a list of pending updates.
#include "seqops.h"
#include "tkrzw_dbm_skip.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_util.h"
using namespace tkrzw;
typedef SkipDBM::TuningParameters TP;

enum { K_SET, K_SETOLD, K_SETNEW, K_REMOVE, K_REMOVEOLD, K_GET, K_SYNC, K_REOPEN, K_CLEAR, K_REBUILD, K_REVERT, K_APPEND, K_CMPEX, K_EACHSET, K_EACHREM,
       K_PROCREM, K_PROCNOOP, K_MULTI, K_ITSET, K_ITREM, K_FIRSTREM, K_MERGE, K_BYINDEX, K_REKEY, K_INCR, K_REBUILD2, K_SYNCHARD };
static const char* kNames[] = {"SET", "SETOLD", "SETNEW", "REMOVE", "REMOVEOLD", "GET", "SYNC", "REOPEN", "CLEAR", "REBUILD", "REVERT", "APPEND", "CMPEX", "EACHSET",
                               "EACHREM", "PROCREM", "PROCNOOP", "MULTI", "ITSET", "ITREM", "FIRSTREM", "MERGE", "BYINDEX", "REKEY", "INCR", "REBUILD2", "SYNCHARD"};
typedef std::vector<std::string> Vals;
struct Red { const char* name; SkipDBM::ReducerType f; std::function<Vals(const Vals&)> m; };
static std::string Join(const Vals& v, const std::string& d) { std::string r; for (size_t i = 0; i < v.size(); i++) r += (i ? d : "") + v[i]; return r; }
static const std::vector<Red> kReds = {
  {"none", nullptr, nullptr},
  {"first", SkipDBM::ReduceToFirst, [](const Vals& v) { return Vals{v[0]}; }},
  {"last", SkipDBM::ReduceToLast, [](const Vals& v) { return Vals{v.back()}; }},
  {"second", SkipDBM::ReduceToSecond, [](const Vals& v) { return Vals{v[v.size() > 1 ? 1 : 0]}; }},
  {"concat", SkipDBM::ReduceConcat, [](const Vals& v) { return Vals{Join(v, "")}; }},
  {"concat null", SkipDBM::ReduceConcatWithNull, [](const Vals& v) { return Vals{Join(v, std::string(1, 0))}; }},
  {"concat tab", SkipDBM::ReduceConcatWithTab, [](const Vals& v) { return Vals{Join(v, "\t")}; }},
  {"concat line", SkipDBM::ReduceConcatWithLine, [](const Vals& v) { return Vals{Join(v, "\n")}; }},
  {"total", SkipDBM::ReduceToTotal, [](const Vals& v) { long t = 0; for (auto& x : v) t += atol(x.c_str()); return Vals{std::to_string(t)}; }},
  {"total be", SkipDBM::ReduceToTotalBigEndian, [](const Vals& v) { uint64_t t = 0; for (auto& x : v) t += StrToIntBigEndian(x); return Vals{IntToStrBigEndian(t)}; }},
};

struct SModel {
  typedef std::pair<std::string, std::string> KV;
  std::vector<KV> c;
  struct P { std::string k, v; bool rem; };
  std::vector<P> p;
  std::vector<std::vector<KV>> merged;
  bool updated() const { return !p.empty() || !merged.empty(); }
  const std::string* Find(const std::string& k) const { for (auto& x : c) if (x.first == k) return &x.second; return nullptr; }
  size_t CountOf(const std::string& k) const { size_t n = 0; for (auto& x : c) n += x.first == k; return n; }
  void Sync(int r) {
    std::map<std::string, std::vector<P>> g;
    for (auto& x : c) g[x.first].push_back({x.first, x.second, false});
    for (auto& m : merged) for (auto& x : m) g[x.first].push_back({x.first, x.second, false});
    bool removed = false;
    for (auto& x : p) { g[x.k].push_back(x); removed |= x.rem; }
    c.clear();
    for (auto& e : g) {
      Vals v;
      for (auto& x : e.second) { if (x.rem) v.clear(); else v.push_back(x.v); }
      if (v.empty()) continue;
      if (kReds[r].m) v = kReds[r].m(v);
      for (auto& x : v) c.emplace_back(e.first, x);
    }
    p.clear();
    merged.clear();
  }
};

struct SkipCase {
  std::unique_ptr<SkipDBM> d;
  SModel m;
  Keys t;
  std::string path, dir;
  TP tp;
  int cls;
  std::vector<SModel::KV> mergesrc;

  std::string Err(const Op& o, const std::string& w) { return std::string(kNames[o.kind]) + "(" + std::to_string(o.k) + "," + std::to_string(o.v) + "," + std::to_string(o.k2) + "): " + w; }
  std::string Ex(const Op& o, const Status& st, Status::Code c) { return st == c ? "" : Err(o, "returned " + ToString(st) + ", expected " + ToString(Status(c))); }
  static std::unique_ptr<File> MakeFile(int cls) {
    if (cls == 1) return std::make_unique<PositionalParallelFile>();
    if (cls == 2) return std::make_unique<MemoryMapAtomicFile>();
    return std::make_unique<MemoryMapParallelFile>();
  }
  std::string Reopen() {
    Status st = d->Close();
    if (st != Status::SUCCESS) return "Close: " + ToString(st);
    st = d->OpenAdvanced(path, true, File::OPEN_DEFAULT, tp);
    if (st != Status::SUCCESS) return "Open: " + ToString(st);
    if (!d->IsHealthy() || d->IsAutoRestored()) return "not healthy after a clean close";
    m.Sync(0);
    return "";
  }
  std::string Apply(const Op& o) {
    const std::string& k = t.keys[o.k % t.keys.size()];
    const std::string& k2 = t.keys[o.k2 % t.keys.size()];
    const std::string& v = t.values[o.v % t.values.size()];
    const std::string* cur = m.Find(k);
    auto set = [&](const std::string& kk, const std::string& vv) { m.p.push_back({kk, vv, false}); };
    auto rem = [&](const std::string& kk) { m.p.push_back({kk, "", true}); };
    switch (o.kind) {
      case K_SET: { auto e = Ex(o, d->Set(k, v), Status::SUCCESS); set(k, v); return e; }
      case K_SETOLD: {
        std::string old = "?";
        auto e = Ex(o, d->Set(k, v, true, &old), Status::SUCCESS);
        if (e.empty() && old != (cur ? *cur : "?")) e = Err(o, "the old value is wrong");
        set(k, v);
        return e;
      }
      case K_SETNEW: {
        std::string old = "?";
        auto e = Ex(o, d->Set(k, v, false, &old), cur ? Status::DUPLICATION_ERROR : Status::SUCCESS);
        if (e.empty() && cur && old != *cur) e = Err(o, "the old value is wrong");
        if (!cur) set(k, v);
        return e;
      }
      case K_REMOVE: { auto e = Ex(o, d->Remove(k), Status::SUCCESS); rem(k); return e; }
      case K_REMOVEOLD: {
        std::string old = "?";
        auto e = Ex(o, d->Remove(k, &old), cur ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
        if (e.empty() && cur && old != *cur) e = Err(o, "the old value is wrong");
        if (cur) rem(k);
        return e;
      }
      case K_GET: {
        std::string val;
        auto e = Ex(o, d->Get(k, &val), cur ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
        if (e.empty() && cur && val != *cur) e = Err(o, "got " + Brief(val));
        return e;
      }
      case K_SYNC: case K_SYNCHARD: {
        auto e = Ex(o, o.k == 0 ? d->Synchronize(o.kind == K_SYNCHARD) : d->SynchronizeAdvanced(o.kind == K_SYNCHARD, nullptr, kReds[o.k].f), Status::SUCCESS);
        m.Sync(o.k);
        return e;
      }
      case K_REOPEN: { auto e = Reopen(); return e.empty() ? "" : Err(o, e); }
      case K_CLEAR: { auto e = Ex(o, d->Clear(), Status::SUCCESS); m.c.clear(); m.p.clear(); m.merged.clear(); return e; }
      case K_REBUILD: { auto e = Ex(o, d->Rebuild(), Status::SUCCESS); m.Sync(0); return e; }
      case K_REBUILD2: {
        TP x; x.step_unit = 2 + o.k; x.max_level = 1 + o.k2; x.offset_width = 3 + o.k;
        auto e = Ex(o, d->RebuildAdvanced(x, false, true), Status::SUCCESS); m.Sync(0); return e;
      }
      case K_REVERT: { auto e = Ex(o, d->Revert(), Status::SUCCESS); m.p.clear(); m.merged.clear(); return e; }
      case K_APPEND: { auto e = Ex(o, d->Append(k, v, ","), Status::SUCCESS); set(k, cur ? *cur + "," + v : v); return e; }
      case K_INCR: {
        int64_t now = 0;
        auto e = Ex(o, d->Increment(k, 5, &now, 100), Status::SUCCESS);
        const int64_t n = (cur ? (int64_t)StrToIntBigEndian(*cur) : 100) + 5;
        if (e.empty() && now != n) e = Err(o, "current is " + std::to_string(now));
        set(k, IntToStrBigEndian(n));
        return e;
      }
      case K_CMPEX: {
        const bool ok = cur && *cur == t.values[o.k2];
        auto e = Ex(o, d->CompareExchange(k, t.values[o.k2], v), ok ? Status::SUCCESS : Status::INFEASIBLE_ERROR);
        if (ok) set(k, v);
        return e;
      }
      case K_EACHSET: case K_EACHREM: {
        std::vector<SModel::KV> seen;
        int emp = 0;
        auto e = Ex(o, static_cast<DBM*>(d.get())->ProcessEach([&](std::string_view kk, std::string_view vv) -> std::string_view {
          if (vv.data() == DBM::RecordProcessor::NOOP.data()) { emp++; return DBM::RecordProcessor::NOOP; }
          seen.emplace_back(kk, vv);
          return o.kind == K_EACHSET ? std::string_view(v) : DBM::RecordProcessor::REMOVE;
        }, true), Status::SUCCESS);
        if (e.empty() && (seen != m.c || emp != 2)) e = Err(o, "wrong records are visited");
        for (auto& x : seen) { if (o.kind == K_EACHSET) set(x.first, v); else rem(x.first); }
        return e;
      }
      case K_PROCREM: case K_PROCNOOP: {
        std::string seen = "-";
        auto e = Ex(o, static_cast<DBM*>(d.get())->Process(k, [&](std::string_view kk, std::string_view vv) -> std::string_view {
          if (vv.data() != DBM::RecordProcessor::NOOP.data()) seen = "+" + std::string(vv);
          return o.kind == K_PROCREM ? DBM::RecordProcessor::REMOVE : DBM::RecordProcessor::NOOP;
        }, true), Status::SUCCESS);
        if (e.empty() && seen != (cur ? "+" + *cur : "-")) e = Err(o, "sees " + Brief(seen));
        if (o.kind == K_PROCREM) rem(k);
        return e;
      }
      case K_MULTI: {
        auto e = Ex(o, static_cast<DBM*>(d.get())->ProcessMulti({{k, [&](std::string_view, std::string_view) -> std::string_view { return DBM::RecordProcessor::REMOVE; }},
                                        {k2, [&](std::string_view, std::string_view) -> std::string_view { return v; }}}, true), Status::SUCCESS);
        rem(k); set(k2, v);
        return e;
      }
      case K_ITSET: case K_ITREM: {
        auto it = d->MakeIterator();
        auto e = Ex(o, it->Jump(k), Status::SUCCESS);
        if (!e.empty()) return e;
        size_t i = 0;
        while (i < m.c.size() && m.c[i].first < k) i++;
        const bool there = i < m.c.size();
        std::string ok = "?", ov = "?";
        e = Ex(o, o.kind == K_ITSET ? it->Set(v, &ok, &ov) : it->Remove(&ok, &ov), there ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
        if (!e.empty()) return e;
        if (there) {
          if (ok != m.c[i].first || ov != m.c[i].second) return Err(o, "the iterator is at " + Brief(ok));
          if (o.kind == K_ITSET) set(ok, v); else rem(ok);
        }
        return "";
      }
      case K_FIRSTREM: {
        std::string fk = "?", fv;
        auto e = Ex(o, static_cast<DBM*>(d.get())->ProcessFirst([&](std::string_view kk, std::string_view vv) -> std::string_view { fk = kk; fv = vv; return DBM::RecordProcessor::REMOVE; }, true),
                    m.c.empty() ? Status::NOT_FOUND_ERROR : Status::SUCCESS);
        if (e.empty() && !m.c.empty() && (fk != m.c[0].first || fv != m.c[0].second)) e = Err(o, "not the first");
        if (!m.c.empty()) rem(m.c[0].first);
        return e;
      }
      case K_MERGE: { auto e = Ex(o, d->MergeSkipDatabase(dir + "/src.tks"), Status::SUCCESS); m.merged.push_back(mergesrc); return e; }
      case K_REKEY: {
        Status::Code c = cur ? Status::SUCCESS : Status::NOT_FOUND_ERROR;
        auto e = Ex(o, d->Rekey(k, k2), c);
        if (cur) { const std::string x = *cur; rem(k); set(k2, x); }
        return e;
      }
      case K_BYINDEX: {
        std::string gk, gv;
        auto e = Ex(o, d->GetByIndex(o.k, &gk, &gv), o.k < (int)m.c.size() ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
        if (e.empty() && o.k < (int)m.c.size() && (gk != m.c[o.k].first || gv != m.c[o.k].second)) e = Err(o, "wrong record");
        return e;
      }
    }
    return "?";
  }
  std::string Verify(int deep) {
    int64_t n = -1;
    Status st = d->Count(&n);
    // Records waiting in the order of insertion are counted already.
    const int64_t want = m.c.size() + (tp.insert_in_order ? m.p.size() : 0);
    if (st != Status::SUCCESS || n != want) return "Count is " + std::to_string(n) + " instead of " + std::to_string(want);
    if (d->IsUpdated() != m.updated()) return "IsUpdated is wrong";
    for (auto& k : t.keys) {
      std::string v = "?";
      st = d->Get(k, &v);
      auto* x = m.Find(k);
      if (x ? st != Status::SUCCESS || v != *x : st != Status::NOT_FOUND_ERROR) return "Get(" + Brief(k) + ") is " + ToString(st) + " " + Brief(v);
    }
    auto it = d->MakeIterator();
    std::vector<SModel::KV> got;
    it->First();
    std::string k, v;
    while (it->Get(&k, &v) == Status::SUCCESS && got.size() < m.c.size() + 3) { got.emplace_back(k, v); it->Next(); }
    if (got != m.c) return "forward iteration gives " + std::to_string(got.size()) + " of " + std::to_string(m.c.size()) + " records or wrong ones";
    got.clear();
    st = it->Last();
    if (st != Status::SUCCESS) return "Last: " + ToString(st);
    while (it->Get(&k, &v) == Status::SUCCESS && got.size() < m.c.size() + 3) { got.insert(got.begin(), SModel::KV(k, v)); it->Previous(); }
    if (got != m.c) return "backward iteration gives " + std::to_string(got.size()) + " of " + std::to_string(m.c.size()) + " records or wrong ones";
    for (size_t i = 0; i <= m.c.size(); i++) {
      st = d->GetByIndex(i, &k, &v);
      if (i < m.c.size() ? st != Status::SUCCESS || k != m.c[i].first || v != m.c[i].second : st != Status::NOT_FOUND_ERROR) return "GetByIndex(" + std::to_string(i) + ") is wrong: " + ToString(st);
    }
    if (deep) {
      for (auto& q : t.keys) {
        for (int mode = 0; mode < 5; mode++) {
          int want = -1;
          const int nn = m.c.size();
          if (mode == 0) { st = it->Jump(q); for (int i = nn - 1; i >= 0; i--) if (m.c[i].first >= q) want = i; }
          if (mode == 1) { st = it->JumpLower(q); for (int i = 0; i < nn; i++) if (m.c[i].first < q) want = i; }
          if (mode == 2) { st = it->JumpLower(q, true); for (int i = 0; i < nn; i++) if (m.c[i].first <= q) want = i; }
          if (mode == 3) { st = it->JumpUpper(q); for (int i = nn - 1; i >= 0; i--) if (m.c[i].first > q) want = i; }
          if (mode == 4) { st = it->JumpUpper(q, true); for (int i = nn - 1; i >= 0; i--) if (m.c[i].first >= q) want = i; }
          if (st != Status::SUCCESS) return "jump: " + ToString(st);
          st = it->Get(&k, &v);
          // Among records of the same key any one will do.
          if (want < 0 ? st != Status::NOT_FOUND_ERROR : st != Status::SUCCESS || k != m.c[want].first)
            return "jump mode " + std::to_string(mode) + " to " + Brief(q) + " is at " + Brief(k) + " " + ToString(st);
        }
      }
    }
    std::vector<SModel::KV> seen;
    st = static_cast<DBM*>(d.get())->ProcessEach([&](std::string_view kk, std::string_view vv) -> std::string_view {
      if (vv.data() != DBM::RecordProcessor::NOOP.data()) seen.emplace_back(kk, vv);
      return DBM::RecordProcessor::NOOP;
    }, false);
    if (st != Status::SUCCESS || seen != m.c) return "ProcessEach visits " + std::to_string(seen.size());
    st = d->ValidateRecords();
    if (st != Status::SUCCESS) return "ValidateRecords: " + ToString(st);
    return "";
  }
};

struct SFam {
  std::string name;
  Keys keys;
  std::vector<Op> pre, alphabet;
  int len = 2;
  std::vector<int> finals = {0};   // the reducers of the last synchronization
  bool ascending = false;          // only sequences whose pending keys ascend
  std::vector<SModel::KV> mergesrc;
};
static long g_index = 0;
static SeqRunner R;
static std::string Txt(const std::vector<Op>& s) {
  std::string r;
  for (auto& o : s) r += std::string(kNames[o.kind]) + "(" + std::to_string(o.k) + "," + std::to_string(o.v) + "," + std::to_string(o.k2) + ") ";
  return r;
}
static void RunOne(const std::string& cname, int cls, const TP& tp, const SFam& f, const std::vector<Op>& seq, int fin) {
  const std::string id = cname + "|" + f.name + "|" + Txt(seq) + "|" + kReds[fin].name;
  if (!mc::args().only.empty() && mc::args().only != id) return;
  mc::SetContext(id);
  alarm(60);
  SkipCase c;
  c.dir = Scratch();
  CleanDir(c.dir);
  c.path = c.dir + "/casket.tks";
  c.t = f.keys;
  c.tp = tp;
  c.cls = cls;
  c.mergesrc = f.mergesrc;
  if (!f.mergesrc.empty()) {
    SkipDBM s;
    s.Open(c.dir + "/src.tks", true);
    for (auto& x : f.mergesrc) s.Set(x.first, x.second);
    s.Close();
  }
  c.d = std::make_unique<SkipDBM>(SkipCase::MakeFile(cls));
  Status st = c.d->OpenAdvanced(c.path, true, File::OPEN_TRUNCATE, tp);
  std::string err;
  if (st != Status::SUCCESS) err = "Open: " + ToString(st);
  auto run = [&](const std::vector<Op>& s) {
    for (auto& o : s) {
      if (!err.empty()) return;
      err = c.Apply(o);
      mc::Stat("transitions", 1);
    }
  };
  run(f.pre);
  run(seq);
  if (err.empty()) { err = c.Verify(1); if (!err.empty()) err = "before the synchronization: " + err; }
  if (err.empty()) { run({{K_SYNC, fin}}); if (err.empty()) err = c.Verify(1); if (!err.empty()) err = "after the synchronization: " + err; }
  if (err.empty()) { err = c.Reopen(); if (err.empty()) err = c.Verify(0); if (!err.empty()) err = "after reopening: " + err; }
  if (err.empty()) {
    st = c.d->Close();
    if (st != Status::SUCCESS) err = "Close: " + ToString(st);
    for (auto suffix : {".tmp.sorter", ".tmp.sorted", ".tmp.merged", ".tmp.rebuild", ".tmp.restore"})
      if (access((c.path + suffix).c_str(), F_OK) == 0) err = std::string("a temporary file is left: ") + suffix;
  }
  if (!err.empty()) mc::Violation(id, err);
  Model hm(ByteLess);
  for (size_t i = 0; i < c.m.c.size(); i++) hm[c.m.c[i].first + "#" + std::to_string(i)] = c.m.c[i].second;
  R.states.insert(SeqRunner::HashState(cname, hm));
  R.cases++;
  if (R.cases == 3) mc::Sample(id);
}
static bool Ascending(const SFam& f, const std::vector<Op>& seq) {
  std::string last;
  bool any = false;
  auto go = [&](const std::vector<Op>& s) {
    for (auto& o : s) {
      if (o.kind == K_SYNC || o.kind == K_SYNCHARD || o.kind == K_REOPEN || o.kind == K_CLEAR || o.kind == K_REBUILD || o.kind == K_REBUILD2 || o.kind == K_REVERT) { any = false; continue; }
      if (o.kind == K_SET || o.kind == K_SETNEW || o.kind == K_SETOLD || o.kind == K_REMOVE || o.kind == K_APPEND || o.kind == K_PROCREM) {
        const std::string& k = f.keys.keys[o.k];
        if (any && k < last) return false;
        last = k; any = true;
      } else if (o.kind != K_GET && o.kind != K_MERGE && o.kind != K_BYINDEX && o.kind != K_PROCNOOP) return false;
    }
    return true;
  };
  return go(f.pre) && go(seq);
}
static void Run(const std::string& cname, int cls, const TP& tp, const SFam& f) {
  for (int len = 0; len <= f.len; len++) {
    std::vector<int> ix(len, 0);
    while (true) {
      std::vector<Op> seq;
      for (int i : ix) seq.push_back(f.alphabet[i]);
      if (!f.ascending || Ascending(f, seq)) {
        for (int fin : f.finals) {
          if (g_index++ % mc::args().num_workers == mc::args().worker || !mc::args().only.empty()) {
            if ((R.cases & 15) == 0 && SeqRunner::Wall() > R.deadline) { R.expired = true; mc::Note("time ran out at " + cname + "|" + f.name); return; }
            RunOne(cname, cls, tp, f, seq, fin);
          }
        }
      }
      int p = len - 1;
      while (p >= 0 && ++ix[p] == (int)f.alphabet.size()) ix[p--] = 0;
      if (p < 0) break;
    }
  }
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  R.Start();
  const bool th = Thorough();
  auto with = [](TP t, std::function<void(TP&)> f) { f(t); return t; };
  TP base;
  base.step_unit = 2; base.max_level = 3; base.sort_mem_size = 1; base.offset_width = 3;
  struct C { std::string name; int cls; TP tp; };
  std::vector<C> cfgs = {
    {"step 2", 0, with(base, [](TP& t) { t.sort_mem_size = -1; })},
    {"step 2 tmp files pos", 1, with(base, [](TP& t) { t.max_cached_records = 1; })},
    {"step 3 level 1", 2, with(base, [](TP& t) { t.step_unit = 3; t.max_level = 1; t.offset_width = 5; t.sort_mem_size = 200; })},
    {"defaults", 0, TP()},
  };
  Keys kt;
  kt.keys = {"b", "a", "c", "", std::string("\0x", 2), std::string(140, 'k')};
  kt.values = {"1", "", "22", std::string(300, 'v'), "5"};
  SFam voc;
  voc.name = "vocab";
  voc.keys = kt;
  voc.mergesrc = {{"a", "m1"}, {"b", "m2"}, {"bb", "m3"}};
  for (int k : {0, 1}) {
    for (auto o : std::vector<Op>{{K_SET, k, 0}, {K_SET, k, 3}, {K_SETOLD, k, 1}, {K_SETNEW, k, 2}, {K_REMOVE, k}, {K_REMOVEOLD, k}, {K_APPEND, k, 2}, {K_CMPEX, k, 2, 0},
                                  {K_PROCREM, k}, {K_MULTI, k, 2, 1 - k}, {K_ITSET, k, 2}, {K_ITREM, k}, {K_REKEY, k, 0, 1 - k}, {K_INCR, k}}) voc.alphabet.push_back(o);
  }
  for (auto o : std::vector<Op>{{K_SET, 3, 1}, {K_SET, 5, 2}, {K_SYNC, 0}, {K_SYNC, 2}, {K_SYNCHARD, 4}, {K_REOPEN}, {K_CLEAR}, {K_REBUILD}, {K_REBUILD2, 1, 0, 2}, {K_REVERT}, {K_EACHSET, 0, 4}, {K_EACHREM},
                                {K_PROCNOOP, 0}, {K_FIRSTREM}, {K_MERGE}, {K_GET, 0}}) voc.alphabet.push_back(o);
  voc.len = 2;
  SFam voc2 = voc;
  voc2.name = "vocab after records";
  voc2.pre = {{K_SET, 0, 0}, {K_SET, 2, 2}, {K_SET, 0, 4}, {K_SET, 4, 1}, {K_SYNC, 0}, {K_SET, 1, 3}};
  voc2.finals = {0, 2};
  // Duplicates, removals and reducers.
  SFam red;
  red.name = "reducers";
  red.keys.keys = {"k", "l"};
  red.keys.values = {"1", "20", IntToStrBigEndian(7)};
  for (auto o : std::vector<Op>{{K_SET, 0, 0}, {K_SET, 0, 1}, {K_REMOVE, 0}, {K_SET, 1, 0}, {K_SYNC, 0}, {K_REOPEN}}) red.alphabet.push_back(o);
  red.len = th ? 5 : 4;
  for (size_t i = 0; i < kReds.size(); i++) if (i < 9) red.finals.push_back(i);
  red.finals.erase(red.finals.begin());
  SFam redbe = red;
  redbe.name = "big-endian reducer";
  redbe.keys.values = {IntToStrBigEndian(7), IntToStrBigEndian(1000), IntToStrBigEndian(-3)};
  redbe.finals = {9};
  redbe.len = 3;
  // Many records: the links of every level, all sizes and all jumps.
  SFam many;
  many.name = "sizes";
  for (int i = 0; i < 30; i++) { char b[8]; sprintf(b, "%02d", i); many.keys.keys.push_back(b); }
  many.keys.values = {"", "1", std::string(20, 'x'), std::string(200, 'y')};
  for (int i = 0; i < 15; i++) many.pre.push_back({K_SET, (i * 7) % 15 * 2, i % 4});
  many.pre.push_back({K_SYNC, 0});
  for (int i = 0; i < 30; i += 3) { many.alphabet.push_back({K_SET, i, 3}); many.alphabet.push_back({K_REMOVE, i}); }
  for (auto o : std::vector<Op>{{K_SYNC, 2}, {K_REBUILD2, 0, 0, 0}, {K_REBUILD2, 2, 0, 3}, {K_EACHREM}}) many.alphabet.push_back(o);
  many.len = 2;
  for (auto& c : cfgs) {
    Run(c.name, c.cls, c.tp, voc);
    Run(c.name, c.cls, c.tp, voc2);
    Run(c.name, c.cls, c.tp, red);
    Run(c.name, c.cls, c.tp, redbe);
    Run(c.name, c.cls, c.tp, many);
  }
  // Numbers of records, one by one, under each geometry.
  for (int su = 2; su <= (th ? 5 : 3); su++)
    for (int lv = 1; lv <= 4; lv++) {
      TP tp = base;
      tp.step_unit = su; tp.max_level = lv; tp.sort_mem_size = -1;
      for (int n = 0; n <= 30; n++) {
        SFam f = many;
        f.name = "n=" + std::to_string(n);
        f.pre.clear();
        for (int i = 0; i < n; i++) f.pre.push_back({K_SET, (i * 7) % (n % 7 ? n : n + 1) % n, i % 4});
        f.alphabet = {{K_REOPEN}};
        f.len = 0;
        f.finals = {2};
        Run("step " + std::to_string(su) + " level " + std::to_string(lv), 0, tp, f);
        TP in = tp;
        in.insert_in_order = true;
        f.name += " in order";
        f.pre.clear();
        for (int i = 0; i < n; i++) f.pre.push_back({K_SET, i, i % 4});
        f.finals = {0};
        Run("in order step " + std::to_string(su) + " level " + std::to_string(lv), 0, in, f);
      }
    }
  // Insertion in order.
  SFam ord;
  ord.name = "in order";
  ord.keys.keys = {"a", "b", "c", "d"};
  ord.keys.values = kt.values;
  ord.ascending = true;
  ord.mergesrc = {{"a", "m1"}, {"c", "m2"}};
  for (int k = 0; k < 4; k++) { ord.alphabet.push_back({K_SET, k, k}); ord.alphabet.push_back({K_REMOVE, k}); }
  for (auto o : std::vector<Op>{{K_SYNC, 0}, {K_SYNC, 2}, {K_REOPEN}, {K_CLEAR}, {K_REBUILD}, {K_REVERT}, {K_MERGE}, {K_GET, 1}, {K_SETNEW, 1, 3}, {K_APPEND, 2, 2}}) ord.alphabet.push_back(o);
  ord.len = th ? 4 : 3;
  ord.finals = {0, 2};
  Run("in order", 0, with(base, [](TP& t) { t.insert_in_order = true; }), ord);
  Run("in order pos", 1, with(base, [](TP& t) { t.insert_in_order = true; t.max_cached_records = 1; }), ord);
  R.Finish();
  mc::FinishReport();
}
