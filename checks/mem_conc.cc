// Concurrent operations of the on-memory databases and SkipDBM, linearizable under every schedule up to the bound.
#include "lin.h"
#include "tkrzw_dbm_baby.h"
#include "tkrzw_dbm_cache.h"
#include "tkrzw_dbm_skip.h"
#include "tkrzw_dbm_std.h"
#include "tkrzw_dbm_tiny.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"
using namespace tkrzw;

typedef std::function<DBM*(std::unique_ptr<File>)> Maker;
static std::function<void(LDb*)> Make(bool ordered, Maker mk, bool opened = true) {
  return [=](LDb* db) {
    db->path = Scratch() + "/casket.flat";
    DBM* d = mk(std::make_unique<PositionalParallelFile>());
    db->dbm.reset(d);
    db->ordered = ordered;
    if (!opened) return;
    Status s = d->Open(db->path, true, File::OPEN_TRUNCATE);
    if (s != Status::SUCCESS) mc::Fail("open: " + ToString(s));
    const std::string path = db->path;
    db->reopen = [=] { Status s = d->Close(); s |= d->Open(path, true, File::OPEN_DEFAULT); return s; };
  };
}
static std::function<void(LDb*)> MakeSkip(SkipDBM::TuningParameters tp) {
  return [=](LDb* db) {
    db->path = Scratch() + "/casket.tks";
    auto* d = new SkipDBM(std::make_unique<MemoryMapParallelFile>());
    db->dbm.reset(d);
    db->ordered = true;
    db->skip = true;
    Status s = d->OpenAdvanced(db->path, true, File::OPEN_TRUNCATE, tp);
    if (s != Status::SUCCESS) mc::Fail("open: " + ToString(s));
    const std::string path = db->path;
    db->reopen = [=] { Status s = d->Close(); s |= d->OpenAdvanced(path, true, File::OPEN_DEFAULT, tp); return s; };
    db->sync = [=](bool hard) { return d->SynchronizeAdvanced(hard, nullptr, SkipDBM::ReduceToLast); };
    db->validate = [=]() -> std::string { Status s = d->ValidateRecords(); return s == Status::SUCCESS ? "" : "ValidateRecords: " + ToString(s); };
  };
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  mc::FsScope(Scratch());
  const bool th = Thorough();
  const int b2 = th ? 4 : 2, b3 = th ? 3 : 2;
  LTable t;
  t.keys = {"a", "b", "c", "d", "e", "f", "g", "h"};
  const std::vector<LOp> four = {{Q_SET, 1, 0}, {Q_SET, 3, 0}, {Q_SET, 5, 0}, {Q_SET, 7, 0}};
  const std::vector<LScen> sc = {
    {"set-get", {{Q_SET, 0, 0}}, {{{Q_SET, 0, 2}, {Q_GET, 0}}, {{Q_GET, 0}, {Q_SET, 0, 1}}}, b2},
    {"new-new", {}, {{{Q_SETNEW, 0, 0}, {Q_GET, 0}}, {{Q_SETNEW, 0, 1}, {Q_COUNT}}}, b2},
    {"append-append", {}, {{{Q_APPEND, 0, 0}, {Q_APPEND, 0, 2}}, {{Q_APPEND, 0, 1}, {Q_GET, 0}}}, b2},
    {"incr-incr", {}, {{{Q_INCR, 0, 0}, {Q_INCR, 1, 0}}, {{Q_INCR, 0, 1}, {Q_INCR, 1, 1}}}, b2},
    {"remove-set", {{Q_SET, 0, 2}, {Q_SET, 1, 2}}, {{{Q_REMOVE, 0}, {Q_COUNT}}, {{Q_SET, 0, 1}, {Q_REMOVE, 1}}}, b2},
    {"remove-read", four, {{{Q_REMOVE, 3}, {Q_SET, 2, 2}}, {{Q_GET, 5}, {Q_GET, 3}}}, b2},
    {"split-split", four, {{{Q_SET, 0, 0}, {Q_SET, 2, 0}}, {{Q_SET, 4, 1}, {Q_SET, 6, 1}}}, b2},
    {"merge-split", four, {{{Q_REMOVE, 3}, {Q_REMOVE, 5}}, {{Q_SET, 4, 0}, {Q_SET, 2, 2}}}, b2},
    {"cmpex", {{Q_SET, 0, 0}}, {{{Q_CMPEX, 0, 1, 0}, {Q_GET, 0}}, {{Q_CMPEX, 0, 2, 0}, {Q_CMPREAD, 1, 0}}}, b2},
    {"toggle", {}, {{{Q_TOGGLE, 0, 0}, {Q_TOGGLE, 1, 1}}, {{Q_TOGGLE, 0, 1}, {Q_TOGGLE, 1, 0}}}, b2},
    {"clear-set", {{Q_SET, 0, 0}, {Q_SET, 1, 0}}, {{{Q_CLEAR}, {Q_COUNT}}, {{Q_SET, 0, 1}, {Q_GET, 1}}}, b2},
    {"rebuild-set", four, {{{Q_REBUILD}, {Q_GET, 2}}, {{Q_SET, 2, 2}, {Q_REMOVE, 3}}}, b2},
    {"sync-set", four, {{{Q_SYNC}, {Q_GET, 3}}, {{Q_SET, 2, 2}, {Q_REMOVE, 3}}}, b2},
    {"old", {{Q_SET, 0, 0}}, {{{Q_SETOLD, 0, 1}, {Q_REMOVEOLD, 0}}, {{Q_GETOLD, 0, 2}, {Q_GET, 0}}}, b2},
    {"pop-pop", {{Q_SET, 0, 0}, {Q_SET, 1, 1}}, {{{Q_POP}}, {{Q_POP}}, {{Q_COUNT}}}, b3},
    {"pop-set", {{Q_SET, 1, 0}}, {{{Q_POP}}, {{Q_SET, 0, 1}, {Q_REMOVE, 1}}}, b3},
    {"push-push", {}, {{{Q_PUSH, 0, 0}}, {{Q_PUSH, 0, 1}}, {{Q_COUNT}}}, b3},
    {"3set", {{Q_SET, 0, 0}}, {{{Q_SET, 0, 2}}, {{Q_SET, 0, 1}}, {{Q_GET, 0}}}, b3},
    {"3mix", four, {{{Q_REMOVE, 3}}, {{Q_APPEND, 3, 1}}, {{Q_SETNEW, 3, 2}}}, b3},
    {"3count", {}, {{{Q_SET, 0, 2}}, {{Q_SET, 1, 1}}, {{Q_COUNT}, {Q_COUNT}}}, b3},
    {"3clear", {{Q_SET, 0, 0}}, {{{Q_CLEAR}}, {{Q_INCR, 1, 0}}, {{Q_GETOLD, 0, 1}}}, b3},
  };
  // Updates of SkipDBM are seen after synchronization.
  const std::vector<LScen> sk = {
    {"set-get", {{Q_SET, 0, 0}, {Q_SYNC}}, {{{Q_SET, 0, 2}, {Q_GET, 0}}, {{Q_GET, 0}, {Q_SET, 0, 1}}}, b2},
    {"set-sync", {{Q_SET, 0, 0}, {Q_SYNC}}, {{{Q_SET, 1, 2}, {Q_SYNC}}, {{Q_GET, 1}, {Q_SET, 2, 1}}}, b2},
    {"sync-sync", {{Q_SET, 0, 0}, {Q_SET, 1, 0}}, {{{Q_SYNC}, {Q_GET, 0}}, {{Q_SYNC}, {Q_COUNT}}}, b2},
    {"remove-sync", {{Q_SET, 0, 0}, {Q_SET, 1, 0}, {Q_SYNC}}, {{{Q_REMOVE, 0}, {Q_SYNC}}, {{Q_GET, 0}, {Q_GET, 1}}}, b2},
    {"rebuild-set", {{Q_SET, 0, 0}, {Q_SET, 1, 0}, {Q_SYNC}}, {{{Q_REBUILD}, {Q_COUNT}}, {{Q_SET, 2, 1}, {Q_GET, 0}}}, b2},
    {"clear-set", {{Q_SET, 0, 0}, {Q_SYNC}}, {{{Q_CLEAR}, {Q_COUNT}}, {{Q_SET, 1, 1}, {Q_GET, 0}}}, b2},
    {"clear-sync", {{Q_SET, 0, 0}, {Q_SYNC}, {Q_SET, 1, 0}}, {{{Q_CLEAR}, {Q_GET, 1}}, {{Q_SYNC}, {Q_COUNT}}}, b2},
    {"3sync", {{Q_SET, 0, 0}, {Q_SYNC}}, {{{Q_SET, 1, 0}}, {{Q_SYNC}}, {{Q_GET, 1}, {Q_COUNT}}}, b3},
    {"copy-set", {{Q_SET, 0, 0}, {Q_SYNC}}, {{{Q_COPY}, {Q_GET, 0}}, {{Q_SET, 1, 1}, {Q_SYNC}}}, b2},
  };
  LinSuite s;
  struct Db { const char* n; std::function<void(LDb*)> mk; bool main; bool reopen; };
  std::vector<Db> dbs = {
    {"tiny", Make(false, [](std::unique_ptr<File> f) { return new TinyDBM(std::move(f), 1); }), true, false},
    {"baby", Make(true, [](std::unique_ptr<File> f) { return new BabyDBM(std::move(f)); }), true, false},
    {"cache", Make(false, [](std::unique_ptr<File> f) { return new CacheDBM(std::move(f), 1000); }), true, false},
    {"stdhash", Make(false, [](std::unique_ptr<File> f) { return new StdHashDBM(std::move(f), 1); }), true, false},
    {"stdtree", Make(true, [](std::unique_ptr<File> f) { return new StdTreeDBM(std::move(f)); }), true, false},
    {"tiny 7 buckets", Make(false, [](std::unique_ptr<File> f) { return new TinyDBM(std::move(f), 7); }), false, true},
    {"baby snapshot", Make(true, [](std::unique_ptr<File> f) { return new BabyDBM(std::move(f)); }), false, true},
    {"cache snapshot", Make(false, [](std::unique_ptr<File> f) { return new CacheDBM(std::move(f), 1000, 1 << 20); }), false, true},
  };
  for (auto& d : dbs)
    for (size_t i = 0; i < sc.size(); i++) {
      auto x = sc[i];
      // CacheDBM looks for the first record slot by slot: not a snapshot of the whole database.
      if (x.name == "pop-set" && std::string(d.n).rfind("cache", 0) == 0) continue;
      if (!d.main && !th && i % 3 != (&d - &dbs[0]) % 3) continue;
      s.Add(d.n, t, x, d.mk, d.reopen);
    }
  SkipDBM::TuningParameters tp;
  tp.offset_width = 3;
  tp.step_unit = 2;
  tp.max_level = 2;
  SkipDBM::TuningParameters t2 = tp;
  t2.sort_mem_size = 1;
  t2.insert_in_order = false;
  for (auto& x : sk) s.Add("skip", t, x, MakeSkip(tp));
  for (auto& x : sk) { auto y = x; if (!th) y.bound = 1; s.Add("skip small memory", t, y, MakeSkip(t2)); }
  s.Run();
  mc::FinishReport();
}
