// The power fails at any point of a session: pages, file sizes and directory entries that were not synchronized may be
// lost in any combination (see CrashRunner::ExplorePower). What the last hard synchronization saved must be there.
#include "crash_map.h"
#include "dbs.h"
using namespace tkrzw;

struct Cfg {
  std::string name;
  int kind;          // 0: hash, 1: tree, 2-6: tiny, baby, cache, stdhash, stdtree, 7: skip, 8: skip that merges
  int cls;
  int restore;
  int options;
};
static std::unique_ptr<File> SmallFile(int cls) {
  auto f = AnyFile(cls);
  f->SetAllocationStrategy(512, 1.1);
  return f;
}
static std::string Name(const std::string& dir) { return dir + "/c.db"; }
static HashDBM::TuningParameters HashTune(const Cfg& c, bool plain) {
  auto tp = TinyHash(true, 2);
  tp.align_pow = 0;
  tp.record_crc_mode = HashDBM::RECORD_CRC_32;
  tp.restore_mode = plain ? (int)HashDBM::RESTORE_DEFAULT : c.restore;
  return tp;
}
static TreeDBM::TuningParameters TreeTune(const Cfg& c, bool plain) {
  auto tp = TinyTree(1, 2);
  tp.update_mode = HashDBM::UPDATE_APPENDING;
  tp.record_crc_mode = HashDBM::RECORD_CRC_32;
  tp.align_pow = 0;
  tp.restore_mode = plain ? (int)HashDBM::RESTORE_DEFAULT : c.restore;
  return tp;
}
static SkipDBM::TuningParameters SkipTune(const Cfg& c) {
  SkipDBM::TuningParameters tp;
  tp.offset_width = 3;
  tp.step_unit = 2;
  tp.max_level = 3;
  tp.restore_mode = c.restore;
  tp.sort_mem_size = c.kind == 8 ? 1 : 1 << 20;
  tp.insert_in_order = false;
  return tp;
}
static std::shared_ptr<DBM> Make(const Cfg& c) {
  switch (c.kind) {
    case 0: return std::make_shared<HashDBM>(SmallFile(c.cls));
    case 1: return std::make_shared<TreeDBM>(SmallFile(c.cls));
    case 2: return std::make_shared<TinyDBM>(SmallFile(c.cls), 2);
    case 3: return std::make_shared<BabyDBM>(SmallFile(c.cls));
    case 4: return std::make_shared<CacheDBM>(SmallFile(c.cls), 1000);
    case 5: return std::make_shared<StdHashDBM>(SmallFile(c.cls), 2);
    case 6: return std::make_shared<StdTreeDBM>(SmallFile(c.cls));
    default: return std::make_shared<SkipDBM>(SmallFile(c.cls));
  }
}
static Status OpenIt(DBM* d, const std::string& dir, const Cfg& c, int more = 0, bool plain = false) {
  const int o = c.options | more;
  if (c.kind == 0) return static_cast<HashDBM*>(d)->OpenAdvanced(Name(dir), true, o, HashTune(c, plain));
  if (c.kind == 1) return static_cast<TreeDBM*>(d)->OpenAdvanced(Name(dir), true, o, TreeTune(c, plain));
  if (c.kind >= 7) return static_cast<SkipDBM*>(d)->OpenAdvanced(Name(dir), true, o, SkipTune(c));
  return d->Open(Name(dir), true, o);
}
static Status Do(DBM* d, const COp& o, const Cfg& c) {
  if (c.kind >= 7) {
    auto* s = static_cast<SkipDBM*>(d);
    if (o.kind == 'Y' || o.kind == 'H') return s->SynchronizeAdvanced(o.kind == 'H', nullptr, SkipDBM::ReduceToLast);
    if (o.kind == 'X') { Status st; if (c.kind != 8) st = s->SynchronizeAdvanced(c.options & File::OPEN_SYNC_HARD, nullptr, SkipDBM::ReduceToLast); st |= s->Close(); return st; }
    if (o.kind == 'B') { Status st = s->SynchronizeAdvanced(true, nullptr, SkipDBM::ReduceToLast); auto tp = SkipTune(c); tp.step_unit = 3; st |= s->RebuildAdvanced(tp, false, true); return st; }
  }
  if (o.kind == 'B') {
    if (c.kind == 0) { auto tp = HashTune(c, false); tp.num_buckets = 7; return static_cast<HashDBM*>(d)->RebuildAdvanced(tp, false, true); }
    if (c.kind == 1) { auto tp = TreeTune(c, false); tp.max_page_size = 60; return static_cast<TreeDBM*>(d)->RebuildAdvanced(tp, false, true); }
  }
  return CDo(d, o, nullptr);
}
static bool Hard(const Cfg& c, const COp& o) {
  if (o.kind == 'H') return true;
  if (o.kind == 'B') return c.kind < 2 || c.kind >= 7;
  return o.kind == 'X' && (c.options & File::OPEN_SYNC_HARD);
}
// The states that may come back; nothing if nothing is promised.
static std::vector<Map> Expected(const CModel& mod, const Cfg& c, const CrashPos& p) {
  std::vector<Map> r;
  int s = mod.h.fresh ? -1 : 0;
  for (int i = 0; i < p.ended; i++) if (Hard(c, mod.ops[i])) s = i + 1;
  if (s < 0) return r;
  // A later save without the hard option replaces the file or marks it as clean, and promises nothing.
  for (int i = s; i < p.begun; i++) if (strchr("YX", mod.ops[i].kind) && !Hard(c, mod.ops[i])) return r;
  if (c.kind >= 2) {
    r.push_back(mod.after[s]);
    if (p.begun > p.ended && Hard(c, mod.ops[p.begun - 1])) r.push_back(mod.after[p.begun]);
    return r;
  }
  // What was written later may be there as well, up to some point, unless the restoration is a synchronized one.
  r.push_back(mod.after[s]);
  const bool sync = (c.restore & 0xffff) == HashDBM::RESTORE_SYNC;
  for (int i = s; i < p.begun; i++) if (!sync || Hard(c, mod.ops[i])) for (auto& m : mod.path[i]) r.push_back(m);
  return r;
}
static std::string Content(DBM* d, Map* m, const std::string& when) {
  const std::string w = when + ": ";
  bool dup = false;
  Status s = ReadAll(d, m, nullptr, &dup);
  if (s != Status::SUCCESS) return w + "ProcessEach: " + ToString(s);
  if (dup) return w + "a record is met twice";
  if (d->CountSimple() != (int64_t)m->size()) return w + "Count is " + std::to_string(d->CountSimple()) + " for " + std::to_string(m->size()) + " records";
  std::vector<std::string> keys(CKEY, CKEY + sizeof(CKEY) / sizeof(*CKEY));
  keys.push_back("new");
  for (auto& k : keys) {
    std::string v;
    s = d->Get(k, &v);
    auto it = m->find(k);
    if (it == m->end() ? s != Status::NOT_FOUND_ERROR : (s != Status::SUCCESS || v != it->second)) return w + "Get of " + k + " disagrees with iteration: " + ToString(s) + " " + v.substr(0, 40);
  }
  return "";
}
static std::string Judge(const CModel& mod, const Cfg& c, const std::string& dir, const CrashPos& pos) {
  const auto ok = Expected(mod, c, pos);
  if (ok.empty()) return "";
  auto db = Make(c);
  Status s = OpenIt(db.get(), dir, c);
  if (s != Status::SUCCESS) return "Open: " + ToString(s);
  Map m;
  if (!db->IsHealthy() || !db->IsWritable()) return "not healthy after opening";
  // The closing of kind 8 leaves older values of the same keys, to be reduced by the reader.
  if (c.kind == 8) { s = static_cast<SkipDBM*>(db.get())->SynchronizeAdvanced(false, nullptr, SkipDBM::ReduceToLast); if (s != Status::SUCCESS) return "Synchronize: " + ToString(s); }
  std::string e = Content(db.get(), &m, "after opening");
  if (!e.empty()) return e;
  if (c.kind <= 1 && (c.restore & 0xffff) != HashDBM::RESTORE_SYNC) {
    // The pages written after the synchronization reach the disk in any order: each record has the
    // value at the synchronization or a later one.
    std::map<std::string, std::set<std::string>> later;
    for (auto& o : ok) for (auto& r : o) later[r.first].insert(r.second);
    for (auto& r : m) {
      auto it = later.find(r.first);
      if (it == later.end() || !it->second.count(r.second)) return "record " + r.first + " has a value it never had: " + ShowMap(m) + " and not one of " + ShowMaps(ok);
    }
    for (auto& l : later) {
      if (m.count(l.first)) continue;
      bool gone = false;
      for (auto& o : ok) gone = gone || !o.count(l.first);
      if (!gone) return "record " + l.first + " is lost: " + ShowMap(m) + " instead of one of " + ShowMaps(ok);
    }
  } else if (std::find(ok.begin(), ok.end(), m) == ok.end()) {
    return "the records are " + ShowMap(m) + " and not " + ShowMaps(ok);
  }
  Map x = m;
  for (int k = 0; k < 3; k++) { s = db->Set(CKEY[k], CVal(7 + k)); if (s != Status::SUCCESS) return "Set: " + ToString(s); x[CKEY[k]] = CVal(7 + k); }
  if (c.kind == 8) { s = static_cast<SkipDBM*>(db.get())->SynchronizeAdvanced(false, nullptr, SkipDBM::ReduceToLast); if (s != Status::SUCCESS) return "Synchronize: " + ToString(s); }
  s = Do(db.get(), {'X'}, c);
  if (s != Status::SUCCESS) return "Close: " + ToString(s);
  s = OpenIt(db.get(), dir, c, 0, true);
  if (s != Status::SUCCESS) return "second Open: " + ToString(s);
  Map y;
  bool dup = false;
  s = ReadAll(db.get(), &y, nullptr, &dup);
  if (s != Status::SUCCESS || y != x) return "in the session after the records are " + ShowMap(y) + " and not " + ShowMap(x) + ": " + ToString(s);
  return "";
}
static CrashCase MakeCase(const CHist& h, const Cfg& c) {
  auto mod = std::make_shared<CModel>(h);
  CrashCase k;
  k.name = c.name + "/" + h.name;
  k.power = true;
  k.power_cap = Thorough() ? 1024 : 128;
  k.setup = [=](const std::string& dir) {
    if (h.fresh) return;
    auto db = Make(c);
    Status s = OpenIt(db.get(), dir, c, File::OPEN_TRUNCATE);
    for (auto& o : h.base) s |= Do(db.get(), o, c);
    s |= Do(db.get(), {'X'}, c);
    if (s != Status::SUCCESS) mc::Violation(k.name + ": setup", ToString(s));
  };
  k.session = [=](const std::string& dir) -> std::shared_ptr<void> {
    auto db = Make(c);
    mc::FsMark("start");
    for (auto& o : mod->ops) {
      mc::FsMark("b");
      Status s = o.kind == 'O' ? OpenIt(db.get(), dir, c) : Do(db.get(), o, c);
      mc::FsMark("e");
      if (s != Status::SUCCESS) mc::Violation(k.name + ": " + CName(o), ToString(s));
    }
    return db;
  };
  k.verify = [=](const std::string& dir, const CrashPos& pos) { return Judge(*mod, c, dir, pos); };
  const std::string tag = c.name;
  k.key = [=](const CrashPos& p) {
    std::string s = tag;
    for (auto& m : Expected(*mod, c, p)) { for (auto& e : m) s += e.first + "\x01" + e.second + "\x02"; s += "\x03"; }
    return s;
  };
  return k;
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const bool th = Thorough();
  const int NS = HashDBM::RESTORE_NO_SHORTCUTS, HARD = File::OPEN_SYNC_HARD, DEF = HashDBM::RESTORE_DEFAULT, SYN = HashDBM::RESTORE_SYNC;
  std::vector<Cfg> cfgs = {
      {"hash", 0, 0, DEF, 0}, {"hash-sync", 0, 0, SYN, 0}, {"hash-hard", 0, 1, DEF, HARD}, {"hash-full", 0, 1, DEF | NS, 0}, {"hash-sync-hard", 0, 0, SYN | NS, HARD},
      {"tree-sync", 1, 0, SYN, 0}, {"tree-sync-hard", 1, 1, SYN, HARD},
      {"tiny-hard", 2, 1, 0, HARD}, {"skip", 7, 0, SkipDBM::RESTORE_SYNC, 0}, {"baby", 3, 0, 0, 0}, {"skip-merge", 8, 1, SkipDBM::RESTORE_SYNC, HARD},
      {"cache-hard", 4, 3, 0, HARD}, {"stdhash", 5, 2, 0, 0}, {"stdtree-hard", 6, 0, 0, HARD}, {"tiny", 2, 0, 0, 0},
      {"hash-atom", 0, 2, DEF, 0}, {"hash-pos-atom", 0, 3, SYN, HARD}, {"skip-pos", 7, 3, SkipDBM::RESTORE_SYNC, HARD}};
  const std::vector<COp> base = {{'S', 0, 2}, {'S', 1, 4}, {'S', 2, 2}}, big = {{'S', 0, 4}, {'S', 1, 4}, {'S', 2, 1}, {'S', 3, 4}};
  const std::vector<COp> alpha = {{'S', 0, 5}, {'S', 3, 4}, {'R', 1}, {'H'}, {'Y'}, {'A', 1, 1}}, few = {{'S', 0, 5}, {'S', 3, 4}, {'R', 1}, {'H'}};
  auto name = [](const std::vector<COp>& ops) { std::string s; for (auto& o : ops) s += (s.empty() ? "" : ".") + CName(o); return s.empty() ? std::string("none") : s; };
  CrashRunner r;
  auto run = [&](const Cfg& c, const std::vector<COp>& b, bool fresh, const std::vector<COp>& ops) {
    if (c.kind >= 7) for (auto& o : ops) if (o.kind == 'A') return;
    CHist h;
    h.base = b;
    h.fresh = fresh;
    h.ops = ops;
    h.name = std::string(fresh ? "fresh:" : b.size() > 3 ? "big:" : "") + name(ops);
    r.Run(MakeCase(h, c));
  };
  for (auto& c : cfgs) {
    run(c, {}, true, {{'S', 0, 2}, {'H'}, {'S', 1, 2}});
    run(c, base, false, {});
    for (auto& a : alpha) run(c, base, false, {a});
    if (c.kind < 2 || c.kind >= 7) run(c, base, false, {{'S', 3, 2}, {'B'}, {'S', 0, 1}});
    run(c, base, false, {{'S', 0, 5}, {'H'}, {'S', 3, 4}, {'H'}});
  }
  for (auto& c : cfgs) for (auto& a : alpha) for (auto& b : alpha) run(c, base, false, {a, b});
  for (auto& c : cfgs) { for (auto& a : alpha) run(c, big, false, {a, {'H'}, {'S', 0, 1}}); run(c, {}, true, {{'S', 0, 4}, {'S', 1, 4}, {'H'}, {'R', 0}}); }
  for (auto& c : cfgs) for (auto& a : few) for (auto& b : few) for (auto& d : few) run(c, base, false, {a, b, d});
  if (th) for (auto& c : cfgs) for (auto& a : alpha) for (auto& b : alpha) for (auto& d : alpha) run(c, big, false, {a, b, d});
  r.Finish();
}
