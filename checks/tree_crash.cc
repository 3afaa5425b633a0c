// The process stops at any point of a TreeDBM session: what every restore mode makes of the file.
#include "crash_map.h"
#include "dbs.h"
using namespace tkrzw;
typedef TreeDBM::TuningParameters TP;

struct Cfg { std::string name; TP tp; int cls; int restore; bool torn; bool write_through; };

static std::unique_ptr<File> SmallFile(int cls) {
  auto f = AnyFile(cls);
  f->SetAllocationStrategy(512, 1.1);
  return f;
}
static std::string Name(const std::string& dir) { return dir + "/c.tkt"; }

static Status DoRebuild(TreeDBM* d, const COp& o, const Cfg& c) {
  TP tp = c.tp;
  if (o.v) { tp.num_buckets = 7; tp.max_page_size = 60; tp.max_branches = 3; }
  return d->RebuildAdvanced(tp);
}
static Status OpenIt(TreeDBM* d, const std::string& dir, const Cfg& c, bool plain) {
  TP tp = c.tp;
  tp.restore_mode = plain ? (int)HashDBM::RESTORE_DEFAULT : c.restore;
  return d->OpenAdvanced(Name(dir), true, File::OPEN_DEFAULT, tp);
}
static std::string Structure(TreeDBM* d, const char* when) {
  // A restoration without metadata makes a great many buckets.
  Status s = d->GetFileSizeSimple() < (1 << 19) ? d->ValidateHashBuckets() : Status();
  if (s != Status::SUCCESS) return std::string(when) + ": ValidateHashBuckets: " + ToString(s);
  s = d->ValidateRecords(-1, -1);
  if (s != Status::SUCCESS) return std::string(when) + ": ValidateRecords: " + ToString(s);
  return "";
}
// The content by ProcessEach, by iterators in both directions, by Get, by Jump and by Count must be the same and in order.
static std::string Content(TreeDBM* d, const Cfg& c, Map* m, const char* when) {
  const std::string w = std::string(when) + ": ";
  KeyComparator cmp = c.tp.key_comparator ? c.tp.key_comparator : LexicalKeyComparator;
  bool dup = false;
  std::vector<std::string> order;
  Status s = ReadAll(d, m, &order, &dup);
  if (s != Status::SUCCESS) return w + "ProcessEach: " + ToString(s);
  if (dup) return w + "a record is met twice";
  for (size_t i = 1; i < order.size(); i++) if (cmp(order[i - 1], order[i]) >= 0) return w + "the records are not in order";
  if (d->CountSimple() != (int64_t)m->size()) return w + "Count is " + std::to_string(d->CountSimple()) + " for " + std::to_string(m->size()) + " records";
  std::vector<std::string> keys(CKEY, CKEY + sizeof(CKEY) / sizeof(*CKEY));
  keys.push_back("new");
  for (auto& k : keys) {
    std::string v;
    s = d->Get(k, &v);
    auto it = m->find(k);
    if (it == m->end() ? s != Status::NOT_FOUND_ERROR : (s != Status::SUCCESS || v != it->second)) return w + "Get of " + k + " disagrees with iteration: " + ToString(s) + " " + v;
  }
  auto it = d->MakeIterator();
  for (int dirn = 0; dirn < 2; dirn++) {
    std::vector<std::string> o2;
    s = dirn ? it->Last() : it->First();
    if (s != Status::SUCCESS) return w + "First or Last: " + ToString(s);
    std::string k, v;
    while ((s = it->Get(&k, &v)) == Status::SUCCESS) {
      o2.push_back(k);
      if (o2.size() > 100) return w + "the iteration does not end";
      if (!m->count(k) || (*m)[k] != v) return w + "iterator gives another value of " + k;
      s = dirn ? it->Previous() : it->Next();
      if (s != Status::SUCCESS) break;
    }
    if (s != Status::NOT_FOUND_ERROR && s != Status::SUCCESS) return w + "iterator: " + ToString(s);
    if (dirn) std::reverse(o2.begin(), o2.end());
    if (o2 != order) return w + "the iterator meets other keys than ProcessEach";
  }
  for (auto& k : keys) {
    std::string g;
    s = it->Jump(k);
    if (s == Status::SUCCESS) s = it->Get(&g);
    size_t p = 0;
    while (p < order.size() && cmp(order[p], k) < 0) p++;
    if (p == order.size() ? s != Status::NOT_FOUND_ERROR : (s != Status::SUCCESS || g != order[p])) return w + "Jump to " + k + ": " + ToString(s) + " " + g;
  }
  return "";
}

static std::string Judge(const CModel& mod, const Cfg& c, const std::string& dir, const CrashPos& pos) {
  const int mode = c.restore & 0xffff;
  TreeDBM db(SmallFile(c.cls));
  Status s = OpenIt(&db, dir, c, false);
  if (mode == HashDBM::RESTORE_READ_ONLY || mode == HashDBM::RESTORE_NOOP) {
    // No restoration: reading must not crash.
    if (s != Status::SUCCESS) return "";
    for (auto* k : CKEY) { std::string v; db.Get(k, &v); }
    db.CountSimple();
    if (mode == HashDBM::RESTORE_READ_ONLY) {
      const bool healthy = db.IsHealthy();
      const Status us = db.Set("zz", "1");
      if (!healthy && us != Status::PRECONDITION_ERROR) return "an unhealthy database accepts an update: " + ToString(us);
    }
    db.Close();
    return "";
  }
  if (s != Status::SUCCESS) return "Open: " + ToString(s);
  if (!db.IsHealthy() || !db.IsWritable()) return "not healthy after the restoration";
  std::string e = Structure(&db, "after the restoration");
  if (!e.empty()) return e;
  Map m;
  e = Content(&db, c, &m, "after the restoration");
  if (!e.empty()) return e;
  const bool appending = c.tp.update_mode == HashDBM::UPDATE_APPENDING;
  if (appending && mode == HashDBM::RESTORE_SYNC) {
    auto ok = mod.Synced(pos);
    if (std::find(ok.begin(), ok.end(), m) == ok.end()) return "the records are " + ShowMap(m) + " and not " + ShowMaps(ok);
  } else {
    auto touched = mod.Touched(pos);
    bool any = false;
    for (auto& sync : mod.Synced(pos)) {
      bool good = true;
      for (auto& r : sync) if (!touched.count(r.first) && (!m.count(r.first) || m[r.first] != r.second)) {
        good = false;
        e = "record " + r.first + " is lost or altered: " + ShowMap(m) + " instead of " + ShowMap(sync);
      }
      any |= good;
    }
    // Synchronized restoration drops what was written beyond the synchronized size, which in in-place mode may be moved pages.
    if (!any && mode != HashDBM::RESTORE_SYNC) return e;
    auto ever = mod.Ever(pos);
    for (auto& r : m) if (!ever.count(r.first) || !ever[r.first].count(r.second)) return "record never written: " + ShowMap({{r.first, r.second}});
  }
  // Later updates work, and the file is clean afterwards.
  Map x = m;
  for (int k = 0; k < 8; k++) {
    s = db.Set(CKEY[k], CVal(7 + k));
    if (s != Status::SUCCESS) return "Set after the restoration: " + ToString(s);
    x[CKEY[k]] = CVal(7 + k);
  }
  for (int k = 1; k < 4; k++) {
    s = db.Remove(CKEY[k]);
    if (s != Status::SUCCESS) return "Remove after the restoration: " + ToString(s);
    x.erase(CKEY[k]);
  }
  Map y;
  e = Content(&db, c, &y, "after later updates");
  if (!e.empty()) return e;
  if (y != x) return "after later updates the records are " + ShowMap(y) + " and not " + ShowMap(x);
  s = db.Close();
  if (s != Status::SUCCESS) return "Close after the restoration: " + ToString(s);
  s = OpenIt(&db, dir, c, true);
  if (s != Status::SUCCESS) return "opening after the restoration and a clean close: " + ToString(s);
  if (!db.IsHealthy() || db.IsAutoRestored()) return "not clean after the restoration and a clean close";
  e = Structure(&db, "in the session after");
  if (!e.empty()) return e;
  y.clear();
  e = Content(&db, c, &y, "in the session after");
  if (!e.empty()) return e;
  if (y != x) return "in the session after the records are " + ShowMap(y) + " and not " + ShowMap(x);
  s = db.Close();
  return s == Status::SUCCESS ? "" : "last Close: " + ToString(s);
}

static CrashCase MakeCase(const CHist& h, const Cfg& c, int nested) {
  auto mod = std::make_shared<CModel>(h);
  CrashCase k;
  k.name = c.name + "/" + h.name;
  k.setup = [=](const std::string& dir) {
    if (h.fresh) return;
    TreeDBM db(SmallFile(c.cls));
    Status s = db.OpenAdvanced(Name(dir), true, File::OPEN_TRUNCATE, c.tp);
    for (auto& o : h.base) s |= CDo(&db, o, nullptr);
    s |= db.Close();
    if (s != Status::SUCCESS) mc::Violation(k.name + ": setup", ToString(s));
  };
  k.session = [=](const std::string& dir) -> std::shared_ptr<void> {
    auto db = std::make_shared<TreeDBM>(SmallFile(c.cls));
    mc::FsMark("start");
    for (auto& o : mod->ops) {
      mc::FsMark("b");
      Status s = o.kind == 'O' ? OpenIt(db.get(), dir, c, false) : CDo(db.get(), o, [&](const COp& x) { return DoRebuild(db.get(), x, c); });
      mc::FsMark("e");
      if (s != Status::SUCCESS) mc::Violation(k.name + ": " + CName(o), ToString(s));
    }
    return db;
  };
  k.verify = [=](const std::string& dir, const CrashPos& pos) { return Judge(*mod, c, dir, pos); };
  k.recover = [=](const std::string& dir) { TreeDBM db(SmallFile(c.cls)); OpenIt(&db, dir, c, false); };
  k.nested = nested;
  k.torn = c.torn;
  const std::string tag = c.name;
  k.key = [=](const CrashPos& p) { return tag + mod->Key(p); };
  return k;
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const bool th = Thorough();
  std::vector<Cfg> cfgs;
  auto cfg = [&](const std::string& name, bool app, int restore, int cls, std::function<void(TP&)> more = nullptr) {
    TP tp = TinyTree(1, 2);
    tp.update_mode = app ? HashDBM::UPDATE_APPENDING : HashDBM::UPDATE_IN_PLACE;
    tp.record_crc_mode = HashDBM::RECORD_CRC_32;
    if (more) more(tp);
    // A page overwritten in place may be lost as a whole by a torn write.
    cfgs.push_back({name, tp, cls, restore, app && tp.record_crc_mode != HashDBM::RECORD_CRC_NONE, tp.page_update_mode == TreeDBM::PAGE_UPDATE_WRITE});
  };
  const int NS = HashDBM::RESTORE_NO_SHORTCUTS;
  auto wt = [](TP& t) { t.page_update_mode = TreeDBM::PAGE_UPDATE_WRITE; };
  cfg("inplace", false, HashDBM::RESTORE_DEFAULT, 0);
  cfg("append", true, HashDBM::RESTORE_DEFAULT, 0);
  cfg("append-sync", true, HashDBM::RESTORE_SYNC, 0);
  cfg("inplace-write", false, HashDBM::RESTORE_DEFAULT, 0, wt);
  cfg("append-write", true, HashDBM::RESTORE_DEFAULT, 0, wt);
  cfg("append-sync-write-full", true, HashDBM::RESTORE_SYNC | NS, 0, wt);
  cfg("inplace-2", false, HashDBM::RESTORE_DEFAULT, 0, [](TP& t) { t.max_page_size = 60; t.max_branches = 3; });
  cfg("inplace-write-2", false, HashDBM::RESTORE_DEFAULT, 1, [&](TP& t) { wt(t); t.max_page_size = 60; t.max_branches = 3; });
  cfg("inplace-full", false, HashDBM::RESTORE_DEFAULT | NS, 0);
  cfg("inplace-decimal", false, HashDBM::RESTORE_DEFAULT, 0, [](TP& t) { t.key_comparator = LexicalCaseKeyComparator; });
  cfg("inplace-custom", false, HashDBM::RESTORE_DEFAULT, 0, [](TP& t) { t.key_comparator = [](std::string_view a, std::string_view b) { return LexicalKeyComparator(b, a); }; });
  cfg("append-sync-custom", true, HashDBM::RESTORE_SYNC, 0, [](TP& t) { t.key_comparator = [](std::string_view a, std::string_view b) { return LexicalKeyComparator(b, a); }; });
  cfg("inplace-nocrc-pos", false, HashDBM::RESTORE_DEFAULT, 1, [](TP& t) { t.record_crc_mode = HashDBM::RECORD_CRC_NONE; });
  cfg("append-comp", true, HashDBM::RESTORE_DEFAULT, 2, [&](TP& t) { wt(t); t.record_comp_mode = HashDBM::RECORD_COMP_ZLIB; });
  cfg("inplace-noop", false, HashDBM::RESTORE_NOOP, 0, wt);
  cfg("append-ro", true, HashDBM::RESTORE_READ_ONLY, 0, wt);
  cfg("inplace-sync", false, HashDBM::RESTORE_SYNC, 0, wt);

  const std::vector<COp> base = {{'S', 0, 2}, {'S', 1, 1}, {'S', 2, 2}, {'S', 6, 1}, {'S', 7, 6}};
  const std::vector<COp> alpha = {{'S', 3, 2}, {'S', 4, 0}, {'S', 0, 5}, {'S', 0, 1}, {'S', 1, 3}, {'S', 8, 2}, {'R', 0}, {'R', 2}, {'R', 5}, {'R', 6}, {'A', 1, 2}, {'A', 4, 6}, {'M', 0, 3}, {'W', 1}, {'Y'}, {'B', 0, 1}, {'C'}};
  auto name = [](const std::vector<COp>& ops) { std::string s; for (auto& o : ops) s += (s.empty() ? "" : ".") + CName(o); return s.empty() ? std::string("none") : s; };
  CrashRunner r;
  auto run = [&](const Cfg& c, const std::vector<COp>& b, bool fresh, const std::vector<COp>& ops, int nested) {
    CHist h;
    h.base = b;
    h.fresh = fresh;
    h.ops = ops;
    h.name = std::string(fresh ? "fresh:" : b.empty() ? "empty:" : "") + name(ops);
    r.Run(MakeCase(h, c, nested));
  };
  for (size_t ci = 0; ci < cfgs.size(); ci++) {
    auto& c = cfgs[ci];
    const int nested = th ? 3 : ci < 3 ? 50 : 300;
    for (auto& a : alpha) run(c, base, false, {a}, nested);
    // Long sessions in which everything happens, with splits, merges and reorganizations of several levels.
    run(c, base, false, {{'S', 3, 2}, {'R', 0}, {'Y'}, {'S', 1, 3}, {'A', 3, 2}, {'B', 0, 1}, {'S', 4, 1}, {'R', 1}, {'Y'}, {'C'}, {'S', 0, 1}}, 0);
    run(c, base, false, {{'S', 3, 1}, {'S', 4, 1}, {'S', 5, 1}, {'S', 8, 1}, {'S', 9, 1}, {'S', 10, 1}, {'S', 11, 1}, {'H'}, {'R', 4}, {'R', 5}, {'R', 3}, {'R', 9}, {'S', 0, 1}}, 0);
    run(c, base, false, {{'R', 0}, {'R', 6}, {'R', 7}, {'Y'}, {'R', 1}, {'R', 2}}, 0);
    // The restoration of a file without tree metadata makes the default number of buckets, which takes long.
    if (th || ci < 2) {
      run(c, {}, true, {}, th ? 5 : 200);
      run(c, {}, true, {{'S', 0, 2}, {'Y'}, {'S', 1, 2}}, 0);
    }
  }
  for (size_t ci = 0; ci < cfgs.size(); ci++) {
    for (auto& a : alpha) for (auto& b : alpha) run(cfgs[ci], base, false, {a, b}, 0);
  }
  const std::vector<COp> small = {{'S', 4, 2}, {'S', 0, 5}, {'S', 1, 3}, {'R', 0}, {'R', 2}, {'Y'}, {'B', 0, 1}};
  for (size_t ci = 0; ci < (th ? cfgs.size() : 4); ci++) {
    auto& al = th && ci < 6 ? alpha : small;
    for (auto& a : al) for (auto& b : al) for (auto& d : al) run(cfgs[ci], base, false, {a, b, d}, 0);
  }
  r.Finish();
}
