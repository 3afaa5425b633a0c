// The process stops at any point of a session of a database that replaces its file by snapshots: the next opening
// gives the complete previous snapshot or the complete new one.
#include "crash_map.h"
#include "dbs.h"
#include "tkrzw_file_std.h"
#include "tkrzw_file_util.h"
using namespace tkrzw;

struct Cfg { std::string name; int cls; bool skip; int kind; int options; int stale; int restore; };

static std::unique_ptr<File> SmallFile(int cls) {
  std::unique_ptr<File> f;
  if (cls == 4) f = std::make_unique<StdFile>(); else f = AnyFile(cls);
  f->SetAllocationStrategy(512, 1.1);
  return f;
}
static std::string Name(const std::string& dir) { return dir + "/c.flat"; }

static SkipDBM::TuningParameters SkipTune(const Cfg& c) {
  SkipDBM::TuningParameters tp;
  tp.offset_width = 3;
  tp.step_unit = 2;
  tp.max_level = 3;
  tp.restore_mode = c.restore;
  tp.sort_mem_size = c.kind == 6 ? 1 : 1 << 20;
  tp.insert_in_order = false;
  return tp;
}
static std::shared_ptr<DBM> Make(const Cfg& c) {
  switch (c.kind) {
    case 0: return std::make_shared<TinyDBM>(SmallFile(c.cls), 2);
    case 1: return std::make_shared<BabyDBM>(SmallFile(c.cls));
    case 2: return std::make_shared<CacheDBM>(SmallFile(c.cls), 1000);
    case 3: return std::make_shared<StdHashDBM>(SmallFile(c.cls), 2);
    case 4: return std::make_shared<StdTreeDBM>(SmallFile(c.cls));
    default: return std::make_shared<SkipDBM>(SmallFile(c.cls));
  }
}
static Status OpenIt(DBM* d, const std::string& dir, const Cfg& c, bool trunc = false) {
  const int o = c.options | (trunc ? (int)File::OPEN_TRUNCATE : 0);
  if (c.skip) return static_cast<SkipDBM*>(d)->OpenAdvanced(Name(dir), true, o, SkipTune(c));
  return d->Open(Name(dir), true, o);
}
static Status Do(DBM* d, const COp& o, const Cfg& c) {
  if (c.skip) {
    auto* s = static_cast<SkipDBM*>(d);
    if (o.kind == 'Y' || o.kind == 'H') return s->SynchronizeAdvanced(o.kind == 'H', nullptr, SkipDBM::ReduceToLast);
    if (o.kind == 'B') {
      Status st = s->SynchronizeAdvanced(false, nullptr, SkipDBM::ReduceToLast);
      SkipDBM::TuningParameters tp = SkipTune(c);
      tp.step_unit = 3;
      st |= s->RebuildAdvanced(tp);
      return st;
    }
    if (o.kind == 'C') { Status st = s->SynchronizeAdvanced(false, nullptr, SkipDBM::ReduceToLast); st |= s->Clear(); return st; }
    if (o.kind == 'X') { Status st = s->SynchronizeAdvanced(false, nullptr, SkipDBM::ReduceToLast); st |= s->Close(); return st; }
  }
  return CDo(d, o, nullptr);
}
static bool Saves(const Cfg& c, char k) { return k == 'Y' || k == 'H' || k == 'X' || (c.skip && (k == 'B' || k == 'C')); }

static std::vector<Map> Expected(const CModel& mod, const Cfg& c, const CrashPos& p) {
  int s = 0;
  for (int i = 0; i < p.ended; i++) if (Saves(c, mod.ops[i].kind)) s = i + 1;
  std::vector<Map> r = {mod.after[s]};
  // SkipDBM does not synchronize the file when it is cleared, so the state which it saved before may come back.
  if (c.skip && s > 0 && mod.ops[s - 1].kind == 'C') r.push_back(mod.after[s - 1]);
  if (p.begun > p.ended && Saves(c, mod.ops[p.begun - 1].kind)) r.push_back(mod.after[p.begun]);
  // SkipDBM saves the state before when it is cleared.
  if (p.begun > p.ended && c.skip && mod.ops[p.begun - 1].kind == 'C') r.push_back(mod.after[p.ended]);
  return r;
}
static std::string Content(DBM* d, const Cfg& c, Map* m, const std::string& when) {
  const std::string w = when + ": ";
  bool dup = false;
  std::vector<std::string> order;
  Status s = ReadAll(d, m, &order, &dup);
  if (s != Status::SUCCESS) return w + "ProcessEach: " + ToString(s);
  if (dup) return w + "a record is met twice";
  if (c.kind == 1 || c.kind >= 4) for (size_t i = 1; i < order.size(); i++) if (order[i - 1] >= order[i]) return w + "the records are not in order";
  if (d->CountSimple() != (int64_t)m->size()) return w + "Count is " + std::to_string(d->CountSimple()) + " for " + std::to_string(m->size()) + " records";
  std::vector<std::string> keys(CKEY, CKEY + sizeof(CKEY) / sizeof(*CKEY));
  keys.push_back("new");
  for (auto& k : keys) {
    std::string v;
    s = d->Get(k, &v);
    auto it = m->find(k);
    if (it == m->end() ? s != Status::NOT_FOUND_ERROR : (s != Status::SUCCESS || v != it->second)) return w + "Get of " + k + " disagrees with iteration: " + ToString(s) + " " + v;
  }
  if (c.skip) { s = static_cast<SkipDBM*>(d)->ValidateRecords(); if (s != Status::SUCCESS) return w + "ValidateRecords: " + ToString(s); }
  return "";
}
static std::string Judge(const CModel& mod, const Cfg& c, const std::string& dir, const CrashPos& pos) {
  auto db = Make(c);
  Status s = OpenIt(db.get(), dir, c);
  if (s != Status::SUCCESS) return "Open: " + ToString(s);
  if (!db->IsHealthy() || !db->IsWritable()) return "not healthy after opening";
  Map m;
  std::string e = Content(db.get(), c, &m, "after opening");
  if (!e.empty()) return e;
  auto ok = Expected(mod, c, pos);
  if (std::find(ok.begin(), ok.end(), m) == ok.end()) return "the records are " + ShowMap(m) + " and not " + ShowMaps(ok);
  // Later updates work.
  Map x = m;
  for (int k = 0; k < 4; k++) { s = db->Set(CKEY[k], CVal(7 + k)); if (s != Status::SUCCESS) return "Set: " + ToString(s); x[CKEY[k]] = CVal(7 + k); }
  s = db->Remove(CKEY[1]);
  if (s != Status::SUCCESS) return "Remove: " + ToString(s);
  x.erase(CKEY[1]);
  s = Do(db.get(), {'Y'}, c);
  if (s != Status::SUCCESS) return "Synchronize: " + ToString(s);
  Map y;
  e = Content(db.get(), c, &y, "after later updates");
  if (!e.empty()) return e;
  if (y != x) return "after later updates the records are " + ShowMap(y) + " and not " + ShowMap(x);
  db->Set("last", "1");
  x["last"] = "1";
  s = Do(db.get(), {'X'}, c);
  if (s != Status::SUCCESS) return "Close: " + ToString(s);
  s = OpenIt(db.get(), dir, c);
  if (s != Status::SUCCESS) return "second Open: " + ToString(s);
  y.clear();
  e = Content(db.get(), c, &y, "in the session after");
  if (!e.empty()) return e;
  if (y != x) return "in the session after the records are " + ShowMap(y) + " and not " + ShowMap(x);
  s = db->Close();
  if (s != Status::SUCCESS) return "second Close: " + ToString(s);
  return "";
}

static CrashCase MakeCase(const CHist& h, const Cfg& c, int nested) {
  auto mod = std::make_shared<CModel>(h);
  CrashCase k;
  k.name = c.name + "/" + h.name;
  k.setup = [=](const std::string& dir) {
    if (c.stale) {
      // Left by an earlier session that was interrupted.
      const std::string junk = c.stale == 1 ? std::string(700, 'j') : std::string("\xff\x03\x04", 3) + std::string(9, '\0');
      for (auto* n : {".tmp.export", ".tmp.rebuild", ".tmp.sorter", ".tmp.sorted", ".tmp.merged"}) {
        const std::string f = n;
        if (!c.skip && f != ".tmp.export") continue;
        if (c.skip && f == ".tmp.export") continue;
        WriteFile(Name(dir) + f, junk);
      }
    }
    if (h.fresh) return;
    auto db = Make(c);
    Status s = OpenIt(db.get(), dir, c, true);
    for (auto& o : h.base) s |= Do(db.get(), o, c);
    s |= Do(db.get(), {'X'}, c);
    if (s != Status::SUCCESS) mc::Violation(k.name + ": setup", ToString(s));
    if (c.stale) WriteFile(Name(dir) + (c.skip ? ".tmp.rebuild" : ".tmp.export"), "junk again");
  };
  k.session = [=](const std::string& dir) -> std::shared_ptr<void> {
    auto db = Make(c);
    mc::FsMark("start");
    for (auto& o : mod->ops) {
      mc::FsMark("b");
      Status s = o.kind == 'O' ? OpenIt(db.get(), dir, c) : Do(db.get(), o, c);
      mc::FsMark("e");
      if (s != Status::SUCCESS) mc::Violation(k.name + ": " + CName(o), ToString(s));
    }
    return db;
  };
  k.verify = [=](const std::string& dir, const CrashPos& pos) { return Judge(*mod, c, dir, pos); };
  k.recover = [=](const std::string& dir) { auto db = Make(c); OpenIt(db.get(), dir, c); db->Close(); };
  k.nested = c.skip ? nested : 0;
  const std::string tag = c.name;
  k.key = [=](const CrashPos& p) {
    std::string s = tag;
    for (auto& m : Expected(*mod, c, p)) { for (auto& e : m) s += e.first + "\x01" + e.second + "\x02"; s += "\x03"; }
    return s;
  };
  return k;
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const bool th = Thorough();
  std::vector<Cfg> cfgs;
  const char* kn[] = {"tiny", "baby", "cache", "stdhash", "stdtree", "skip", "skip-smallmem"};
  for (int k = 0; k < 7; k++) cfgs.push_back({kn[k], k % 4 == 0 ? 1 : k % 4 == 1 ? 0 : k % 4 == 2 ? 2 : 3, k >= 5, k, 0, 0, SkipDBM::RESTORE_SYNC});
  for (int k = 0; k < 7; k++) cfgs.push_back({std::string(kn[k]) + "-stale", k % 4 == 0 ? 0 : 1, k >= 5, k, 0, 1 + k % 2, SkipDBM::RESTORE_SYNC});
  for (int k : {0, 2, 5}) cfgs.push_back({std::string(kn[k]) + "-std", 4, k >= 5, k, 0, 0, SkipDBM::RESTORE_SYNC});
  for (int k : {1, 3, 5}) cfgs.push_back({std::string(kn[k]) + "-hard", 1, k >= 5, k, File::OPEN_SYNC_HARD, 0, SkipDBM::RESTORE_SYNC});
  const std::vector<COp> base = {{'S', 0, 2}, {'S', 1, 1}, {'S', 2, 2}, {'S', 6, 0}, {'S', 7, 6}};
  const std::vector<COp> mem = {{'S', 3, 2}, {'S', 0, 4}, {'R', 0}, {'A', 1, 2}, {'Y'}, {'H'}, {'B', 0, 1}, {'C'}};
  const std::vector<COp> skp = {{'S', 3, 2}, {'S', 0, 4}, {'R', 0}, {'Y'}, {'H'}, {'B', 0, 1}, {'C'}};
  auto name = [](const std::vector<COp>& ops) { std::string s; for (auto& o : ops) s += (s.empty() ? "" : ".") + CName(o); return s.empty() ? std::string("none") : s; };
  CrashRunner r;
  auto run = [&](const Cfg& c, const std::vector<COp>& b, bool fresh, const std::vector<COp>& ops, int nested) {
    CHist h;
    h.base = b;
    h.fresh = fresh;
    h.ops = ops;
    h.name = std::string(fresh ? "fresh:" : b.empty() ? "empty:" : "") + name(ops);
    r.Run(MakeCase(h, c, nested));
  };
  const std::vector<COp> all = {{'S', 3, 2}, {'R', 0}, {'Y'}, {'S', 1, 3}, {'H'}, {'B', 0, 1}, {'S', 4, 1}, {'R', 1}, {'Y'}, {'C'}, {'S', 0, 1}, {'Y'}, {'S', 0, 4}};
  for (size_t ci = 0; ci < cfgs.size(); ci++) {
    auto& c = cfgs[ci];
    const int n = th ? 2 : 10;
    run(c, base, false, all, n);
    run(c, {}, true, all, 0);
    run(c, {}, true, {}, n);
    run(c, {}, false, {}, n);
    auto& al = c.skip ? skp : mem;
    for (auto& a : al) { run(c, base, false, {a}, n); run(c, {}, true, {a}, 0); }
  }
  for (size_t ci = 0; ci < cfgs.size(); ci++) {
    auto& al = cfgs[ci].skip ? skp : mem;
    for (auto& a : al) for (auto& b : al) run(cfgs[ci], base, false, {a, b}, 0);
  }
  for (size_t ci = 0; ci < cfgs.size(); ci++) {
    auto& al = cfgs[ci].skip ? skp : mem;
    for (auto& a : al) for (auto& b : al) for (auto& d : al) if (th || ci < 7) run(cfgs[ci], base, false, {a, b, d}, 0);
  }
  if (th) for (size_t ci = 0; ci < 7; ci++) {
    auto& al = cfgs[ci].skip ? skp : mem;
    for (auto& a : al) for (auto& b : al) for (auto& d : al) for (auto& e : al) run(cfgs[ci], base, false, {a, b, d, e}, 0);
  }
  r.Finish();
}
