// The process stops at any point of a HashDBM session: what every restore mode makes of the file.
#include "crash_map.h"
#include "dbs.h"
using namespace tkrzw;
typedef HashDBM::TuningParameters TP;

struct Cfg { std::string name; TP tp; int cls; int restore; bool torn; };

static std::unique_ptr<File> SmallFile(int cls) {
  auto f = AnyFile(cls);
  f->SetAllocationStrategy(512, 1.1);
  return f;
}
static std::string Name(const std::string& dir) { return dir + "/c.tkh"; }

static Status DoRebuild(HashDBM* d, const COp& o, const Cfg& c) {
  TP tp = c.tp;
  if (o.v) tp.num_buckets = 7;
  return d->RebuildAdvanced(tp);
}
static Status OpenIt(HashDBM* d, const std::string& dir, const Cfg& c, bool plain) {
  TP tp = c.tp;
  tp.restore_mode = plain ? (int)HashDBM::RESTORE_DEFAULT : c.restore;
  return d->OpenAdvanced(Name(dir), true, File::OPEN_DEFAULT, tp);
}

static std::string Structure(HashDBM* d, const char* when) {
  Status s = d->ValidateHashBuckets();
  if (s != Status::SUCCESS) return std::string(when) + ": ValidateHashBuckets: " + ToString(s);
  s = d->ValidateRecords(-1, -1);
  if (s != Status::SUCCESS) return std::string(when) + ": ValidateRecords: " + ToString(s);
  return "";
}
// The content by ProcessEach, by Get and by Count must be the same.
static std::string Content(HashDBM* d, Map* m, const char* when) {
  bool dup = false;
  Status s = ReadAll(d, m, nullptr, &dup);
  if (s != Status::SUCCESS) return std::string(when) + ": ProcessEach: " + ToString(s);
  if (dup) return std::string(when) + ": a record is met twice";
  for (auto* k : {"a", "bb", "", "d0123456789012345678901234567890", "e", "f", "new"}) {
    std::string v;
    s = d->Get(k, &v);
    auto it = m->find(k);
    if (it == m->end() ? s != Status::NOT_FOUND_ERROR : (s != Status::SUCCESS || v != it->second)) return std::string(when) + ": Get of " + k + " disagrees with iteration: " + ToString(s) + " " + v;
  }
  if (d->CountSimple() != (int64_t)m->size()) return std::string(when) + ": Count is " + std::to_string(d->CountSimple()) + " for " + std::to_string(m->size()) + " records";
  return "";
}

static std::string Judge(const CModel& mod, const Cfg& c, const std::string& dir, const CrashPos& pos) {
  const int mode = c.restore & 0xffff;
  HashDBM db(SmallFile(c.cls));
  Status s = OpenIt(&db, dir, c, false);
  if (mode == HashDBM::RESTORE_READ_ONLY || mode == HashDBM::RESTORE_NOOP) {
    // No restoration: reading must not crash, and what it returns was written.
    if (s != Status::SUCCESS) return mode == HashDBM::RESTORE_NOOP ? "" : "";
    Map m;
    ReadAll(&db, &m);
    for (auto* k : CKEY) { std::string v; db.Get(k, &v); }
    db.CountSimple();
    if (mode == HashDBM::RESTORE_READ_ONLY) {
      const bool healthy = db.IsHealthy();
      const Status us = db.Set("zz", "1");
      if (!healthy && us != Status::PRECONDITION_ERROR) return "an unhealthy database accepts an update: " + ToString(us);
    } else {
      if (!db.IsHealthy()) return "not healthy with RESTORE_NOOP";
    }
    db.Close();
    return "";
  }
  if (s != Status::SUCCESS) return "Open: " + ToString(s);
  if (!db.IsHealthy() || !db.IsWritable()) return "not healthy after the restoration";
  std::string e = Structure(&db, "after the restoration");
  if (!e.empty()) return e;
  if (!mod.h.fresh && !pos.torn && !pos.torn2) {
    if (db.GetDatabaseType() != 77 || db.GetOpaqueMetadata() != "opaque" + std::string(HashDBM::OPAQUE_METADATA_SIZE - 6, 0)) return "the database type or the opaque metadata is lost";
  }
  Map m;
  e = Content(&db, &m, "after the restoration");
  if (!e.empty()) return e;
  const bool appending = c.tp.update_mode == HashDBM::UPDATE_APPENDING;
  if (appending && mode == HashDBM::RESTORE_DEFAULT) {
    auto ok = mod.Prefixes(pos);
    if (std::find(ok.begin(), ok.end(), m) == ok.end()) return "the records are " + ShowMap(m) + " and not " + ShowMaps(ok);
  } else if (appending) {
    auto ok = mod.Synced(pos);
    if (std::find(ok.begin(), ok.end(), m) == ok.end()) return "the records are " + ShowMap(m) + " and not " + ShowMaps(ok);
  } else {
    auto ok = mod.Prefixes(pos);
    if (!pos.torn && mode == HashDBM::RESTORE_DEFAULT && std::find(ok.begin(), ok.end(), m) == ok.end()) return "the records are " + ShowMap(m) + " and not " + ShowMaps(ok);
    if (mode == HashDBM::RESTORE_DEFAULT) {
      const auto fl = mod.InFlight(pos);
      const Map& before = mod.after[pos.ended];
      for (auto& r : before) if (!fl.count(r.first) && (!m.count(r.first) || m[r.first] != r.second)) return "record " + r.first + " is lost or altered: " + ShowMap(m) + " instead of " + ShowMap(before);
      for (auto& r : m) if (!fl.count(r.first) && !before.count(r.first)) return "record " + r.first + " is back: " + ShowMap(m) + " instead of " + ShowMap(before);
    }
    auto touched = mod.Touched(pos);
    for (auto& sync : mod.Synced(pos)) {
      for (auto& r : sync) if (!touched.count(r.first) && (!m.count(r.first) || m[r.first] != r.second)) {
        e = "record " + r.first + " is lost or altered: " + ShowMap(m) + " instead of " + ShowMap(sync);
      }
      if (e.empty()) break;
      if (&sync != &mod.Synced(pos).back()) {}
    }
    // With two candidates (a synchronization in flight), either will do.
    bool any = false;
    for (auto& sync : mod.Synced(pos)) {
      bool good = true;
      for (auto& r : sync) if (!touched.count(r.first) && (!m.count(r.first) || m[r.first] != r.second)) good = false;
      any |= good;
    }
    if (!any) return e;
    auto ever = mod.Ever(pos);
    for (auto& r : m) if (!ever.count(r.first) || !ever[r.first].count(r.second)) return "record never written: " + ShowMap({{r.first, r.second}});
  }
  // Later updates work, and the file is clean afterwards.
  Map x = m;
  for (int k = 0; k < 6; k++) {
    s = db.Set(CKEY[k], CVal(7 + k));
    if (s != Status::SUCCESS) return "Set after the restoration: " + ToString(s);
    x[CKEY[k]] = CVal(7 + k);
  }
  e = Structure(&db, "after later updates");
  if (!e.empty()) return e;
  s = db.Remove(CKEY[1]);
  if (s != Status::SUCCESS) return "Remove after the restoration: " + ToString(s);
  x.erase(CKEY[1]);
  s = db.Set("zz", CVal(2));
  if (s != Status::SUCCESS) return "Set after the restoration: " + ToString(s);
  x["zz"] = CVal(2);
  s = db.Close();
  if (s != Status::SUCCESS) return "Close after the restoration: " + ToString(s);
  s = OpenIt(&db, dir, c, true);
  if (s != Status::SUCCESS) return "opening after the restoration and a clean close: " + ToString(s);
  if (!db.IsHealthy() || db.IsAutoRestored()) return "not clean after the restoration and a clean close";
  e = Structure(&db, "in the session after");
  if (!e.empty()) return e;
  Map y;
  e = Content(&db, &y, "in the session after");
  if (!e.empty()) return e;
  if (y != x) return "in the session after the records are " + ShowMap(y) + " and not " + ShowMap(x);
  s = db.Close();
  return s == Status::SUCCESS ? "" : "last Close: " + ToString(s);
}

static CrashCase MakeCase(const CHist& h, const Cfg& c, int nested) {
  auto mod = std::make_shared<CModel>(h);
  CrashCase k;
  k.name = c.name + "/" + h.name;
  k.setup = [=](const std::string& dir) {
    if (h.fresh) return;
    HashDBM db(SmallFile(c.cls));
    Status s = db.OpenAdvanced(Name(dir), true, File::OPEN_TRUNCATE, c.tp);
    s |= db.SetDatabaseType(77);
    s |= db.SetOpaqueMetadata("opaque");
    for (auto& o : h.base) s |= CDo(&db, o, nullptr);
    s |= db.Close();
    if (s != Status::SUCCESS) mc::Violation(k.name + ": setup", ToString(s));
  };
  k.session = [=](const std::string& dir) -> std::shared_ptr<void> {
    auto db = std::make_shared<HashDBM>(SmallFile(c.cls));
    mc::FsMark("start");
    for (auto& o : mod->ops) {
      mc::FsMark("b");
      Status s = o.kind == 'O' ? OpenIt(db.get(), dir, c, false) : CDo(db.get(), o, [&](const COp& x) { return DoRebuild(db.get(), x, c); });
      mc::FsMark("e");
      if (s != Status::SUCCESS) mc::Violation(k.name + ": " + CName(o), ToString(s));
    }
    return db;
  };
  k.verify = [=](const std::string& dir, const CrashPos& pos) { return Judge(*mod, c, dir, pos); };
  k.recover = [=](const std::string& dir) { HashDBM db(SmallFile(c.cls)); OpenIt(&db, dir, c, false); };
  k.nested = nested;
  k.torn = c.torn;
  const std::string tag = c.name;
  k.key = [=](const CrashPos& p) { return tag + mod->Key(p); };
  return k;
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const bool th = Thorough();
  std::vector<Cfg> cfgs;
  auto cfg = [&](const std::string& name, bool app, int restore, int cls, std::function<void(TP&)> more = nullptr) {
    TP tp = TinyHash(app, 2);
    tp.align_pow = 0;
    tp.record_crc_mode = HashDBM::RECORD_CRC_32;
    if (more) more(tp);
    // Without a CRC, a torn record may go unnoticed: the magic byte holds only a few bits of checksum.
    cfgs.push_back({name, tp, cls, restore, tp.record_crc_mode != HashDBM::RECORD_CRC_NONE});
  };
  const int NS = HashDBM::RESTORE_NO_SHORTCUTS;
  cfg("append", true, HashDBM::RESTORE_DEFAULT, 0);
  cfg("inplace", false, HashDBM::RESTORE_DEFAULT, 0);
  cfg("append-full", true, HashDBM::RESTORE_DEFAULT | NS, 0);
  cfg("append-sync", true, HashDBM::RESTORE_SYNC, 0);
  cfg("inplace-full", false, HashDBM::RESTORE_DEFAULT | NS, 0);
  cfg("append-sync-full", true, HashDBM::RESTORE_SYNC | NS, 0, [](TP& t) { t.align_pow = 3; });
  cfg("append-noop", true, HashDBM::RESTORE_NOOP, 0);
  cfg("inplace-noop", false, HashDBM::RESTORE_NOOP, 0);
  cfg("append-ro", true, HashDBM::RESTORE_READ_ONLY, 0);
  cfg("append-nocrc", true, HashDBM::RESTORE_DEFAULT, 0, [](TP& t) { t.record_crc_mode = HashDBM::RECORD_CRC_NONE; });
  cfg("inplace-nocrc", false, HashDBM::RESTORE_DEFAULT, 0, [](TP& t) { t.record_crc_mode = HashDBM::RECORD_CRC_NONE; });
  cfg("append-pos-w5", true, HashDBM::RESTORE_DEFAULT, 1, [](TP& t) { t.offset_width = 5; t.align_pow = 2; });
  cfg("append-atomic-comp", true, HashDBM::RESTORE_DEFAULT, 2, [](TP& t) { t.offset_width = 4; t.record_comp_mode = HashDBM::RECORD_COMP_ZLIB; });
  cfg("inplace-pos-crc", false, HashDBM::RESTORE_DEFAULT, 3, [](TP& t) { t.align_pow = 4; t.cache_buckets = 1; });
  cfg("inplace-sync", false, HashDBM::RESTORE_SYNC, 0);

  const std::vector<COp> base = {{'S', 0, 2}, {'S', 1, 1}, {'S', 2, 2}};
  const std::vector<COp> alpha = {{'S', 3, 2}, {'S', 4, 0}, {'S', 0, 5}, {'S', 0, 1}, {'S', 1, 3}, {'R', 0}, {'R', 2}, {'R', 5}, {'A', 1, 2}, {'A', 4, 6}, {'M', 0, 3}, {'W', 1}, {'Y'}, {'B', 0, 1}, {'C'}};
  auto name = [](const std::vector<COp>& ops) { std::string s; for (auto& o : ops) s += (s.empty() ? "" : ".") + CName(o); return s.empty() ? std::string("none") : s; };
  CrashRunner r;
  auto run = [&](const Cfg& c, const std::vector<COp>& b, bool fresh, const std::vector<COp>& ops, int nested) {
    CHist h;
    h.base = b;
    h.fresh = fresh;
    h.ops = ops;
    h.name = std::string(fresh ? "fresh:" : b.empty() ? "empty:" : b.size() > 6 ? "holes:" : "") + name(ops);
    r.Run(MakeCase(h, c, nested));
  };
  for (size_t ci = 0; ci < cfgs.size(); ci++) {
    auto& c = cfgs[ci];
    const int nested = th ? 1 : ci < 6 ? 2 : 9;
    run(c, {}, true, {}, nested);
    run(c, {}, true, {{'S', 0, 2}, {'Y'}, {'S', 1, 2}}, nested);
    for (auto& a : alpha) run(c, base, false, {a}, nested);
    // A long session in which everything happens.
    run(c, base, false, {{'S', 3, 2}, {'R', 0}, {'Y'}, {'S', 1, 3}, {'A', 3, 2}, {'B', 0, 1}, {'S', 4, 1}, {'R', 1}, {'Y'}, {'C'}, {'S', 0, 1}}, 0);
    run(c, base, false, {{'S', 4, 4}, {'S', 5, 4}, {'R', 4}, {'S', 3, 4}, {'H'}, {'S', 5, 1}}, 0);
  }
  // Sessions that begin with free blocks in the file.
  const std::vector<COp> holes = {{'S', 3, 2}, {'S', 0, 2}, {'S', 4, 2}, {'S', 1, 1}, {'S', 5, 1}, {'S', 2, 2}, {'R', 3}, {'R', 4}, {'R', 5}};
  const std::vector<COp> fill = {{'S', 3, 2}, {'S', 4, 5}, {'S', 5, 1}, {'R', 0}, {'R', 1}, {'Y'}, {'B', 0, 0}, {'S', 0, 3}};
  for (size_t ci = 0; ci < cfgs.size(); ci++) {
    if (cfgs[ci].tp.update_mode == HashDBM::UPDATE_APPENDING) continue;
    for (auto& a : fill) run(cfgs[ci], holes, false, {a}, 0);
    for (auto& a : fill) for (auto& b : fill) run(cfgs[ci], holes, false, {a, b}, 0);
  }
  for (size_t ci = 0; ci < cfgs.size(); ci++) {
    for (auto& a : alpha) for (auto& b : alpha) run(cfgs[ci], base, false, {a, b}, 0);
  }
  const std::vector<COp> small = {{'S', 4, 2}, {'S', 0, 5}, {'S', 1, 3}, {'R', 0}, {'R', 2}, {'Y'}, {'B', 0, 1}};
  for (size_t ci = 0; ci < (th ? cfgs.size() : 2); ci++) {
    auto& al = th && ci < 4 ? alpha : small;
    for (auto& a : al) for (auto& b : al) for (auto& d : al) run(cfgs[ci], base, false, {a, b, d}, 0);
  }
  r.Finish();
}
