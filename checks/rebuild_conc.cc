// Rebuilding, synchronizing, clearing and copying against concurrent operations, linearizable under every schedule up to the bound.
#include "dbs.h"
using namespace tkrzw;

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  mc::FsScope(Scratch());
  const bool th = Thorough();
  const int b2 = th ? 3 : 2, b3 = th ? 2 : 1;
  LTable t;
  const std::vector<LOp> two = {{Q_SET, 0, 0}, {Q_SET, 1, 1}};
  const std::vector<LOp> holes = {{Q_SET, 0, 0}, {Q_SET, 1, 1}, {Q_SET, 2, 2}, {Q_REMOVE, 1}, {Q_SET, 0, 2}};
  const std::vector<LScen> sc = {
    {"rebuild-set", two, {{{Q_REBUILD}, {Q_GET, 0}}, {{Q_SET, 0, 2}, {Q_SET, 2, 0}}}, b2},
    {"rebuild-remove", holes, {{{Q_REBUILD}, {Q_COUNT}}, {{Q_REMOVE, 0}, {Q_REMOVE, 2}}}, b2},
    {"rebuild-readd", holes, {{{Q_REBUILD}, {Q_GET, 2}}, {{Q_REMOVE, 2}, {Q_SET, 2, 1}}}, b2},
    {"rebuild-append", two, {{{Q_REBUILD}}, {{Q_APPEND, 0, 2}, {Q_APPEND, 0, 1}, {Q_GET, 0}}}, b2},
    {"rebuild-get", holes, {{{Q_REBUILD}}, {{Q_GET, 0}, {Q_GET, 1}, {Q_COUNT}}}, b2},
    {"rebuild-stat", two, {{{Q_REBUILD}}, {{Q_STAT}, {Q_STAT}}}, b2},
    {"rebuild-rebuild", holes, {{{Q_REBUILD}, {Q_SET, 1, 0}}, {{Q_REBUILD}, {Q_GET, 1}}}, b2},
    {"rebuild-sync", two, {{{Q_REBUILD}, {Q_SET, 0, 1}}, {{Q_SYNC, 0, 0}, {Q_SET, 1, 0}}}, b2},
    {"rebuild-clear", two, {{{Q_REBUILD}, {Q_SET, 0, 1}}, {{Q_CLEAR}, {Q_COUNT}}}, b2},
    {"rebuild-each", two, {{{Q_REBUILD}}, {{Q_EACHADD, 0, 1}, {Q_GET, 1}}}, b2},
    {"rebuild-read each", holes, {{{Q_REBUILD}}, {{Q_SET, 0, 1}, {Q_EACHGET}}}, b2},
    {"rebuild-multi", two, {{{Q_REBUILD}}, {{Q_SWAP, 0, 0, 1}, {Q_READ2, 0, 0, 1}}}, b2},
    {"3rebuild", two, {{{Q_REBUILD}}, {{Q_SET, 0, 2}}, {{Q_REMOVE, 1}}}, b3},
    {"3rebuild append", {}, {{{Q_REBUILD}}, {{Q_APPEND, 0, 0}}, {{Q_APPEND, 0, 1}}}, b3},
    {"sync-set", two, {{{Q_SYNC, 0, 0}, {Q_GET, 0}}, {{Q_SET, 0, 2}, {Q_REMOVE, 1}}}, b2},
    {"sync hard-append", two, {{{Q_SYNC, 0, 1}, {Q_COUNT}}, {{Q_APPEND, 0, 2}, {Q_SETNEW, 2, 0}}}, b2},
    {"sync-sync", two, {{{Q_SYNC, 0, 0}, {Q_SET, 0, 2}}, {{Q_SYNC, 0, 1}, {Q_REMOVE, 0}}}, b2},
    {"clear-set", two, {{{Q_CLEAR}, {Q_COUNT}}, {{Q_SET, 0, 2}, {Q_APPEND, 1, 0}}}, b2},
    {"clear-clear", two, {{{Q_CLEAR}, {Q_SET, 0, 1}}, {{Q_CLEAR}, {Q_GET, 0}}}, b2},
    {"clear-stat", two, {{{Q_CLEAR}, {Q_SET, 0, 1}}, {{Q_STAT}, {Q_GET, 0}}}, b2},
    {"3clear", two, {{{Q_CLEAR}}, {{Q_SET, 0, 2}}, {{Q_SYNC, 0, 0}}}, b3},
    {"copy-set", two, {{{Q_COPY}}, {{Q_SET, 0, 2}, {Q_SET, 2, 0}}}, b2},
    {"copy-remove", holes, {{{Q_COPY}, {Q_GET, 0}}, {{Q_REMOVE, 0}, {Q_APPEND, 2, 1}}}, b2},
    {"copy-rebuild", holes, {{{Q_COPY}}, {{Q_SET, 0, 1}, {Q_REBUILD}}}, b2},
    {"copy-copy", two, {{{Q_COPY}, {Q_SET, 0, 2}}, {{Q_COPY}, {Q_REMOVE, 1}}}, b2},
    {"3copy", two, {{{Q_COPY}}, {{Q_SET, 0, 2}}, {{Q_SET, 1, 0}}}, b3},
  };
  // No key of SkipDBM is written twice between two synchronizations with the reducer.
  const std::vector<LOp> synced = {{Q_SET, 0, 0}, {Q_SET, 1, 1}, {Q_SYNC}};
  const std::vector<LScen> sk = {
    {"rebuild-set", synced, {{{Q_REBUILD}, {Q_GET, 2}}, {{Q_SET, 2, 2}, {Q_SET, 3, 0}}}, b2},
    {"rebuild-remove", synced, {{{Q_REBUILD}, {Q_COUNT}}, {{Q_REMOVE, 0}, {Q_GET, 0}}}, b2},
    {"rebuild-sync", synced, {{{Q_REBUILD}, {Q_SET, 2, 1}}, {{Q_SET, 3, 0}, {Q_SYNC}}}, b2},
    {"rebuild-get", synced, {{{Q_REBUILD}, {Q_REBUILD}}, {{Q_GET, 0}, {Q_GET, 1}, {Q_COUNT}}}, b2},
    {"rebuild-stat", synced, {{{Q_REBUILD}}, {{Q_STAT}, {Q_STAT}}}, b2},
    {"rebuild-clear", synced, {{{Q_REBUILD}, {Q_SET, 2, 1}}, {{Q_CLEAR}, {Q_COUNT}}}, b2},
    {"sync-set", synced, {{{Q_SYNC}, {Q_GET, 2}}, {{Q_SET, 2, 2}, {Q_REMOVE, 1}}}, b2},
    {"sync hard-sync", synced, {{{Q_SYNC, 0, 1}, {Q_SET, 2, 0}}, {{Q_SET, 0, 2}, {Q_SYNC}}}, b2},
    {"clear-set", synced, {{{Q_CLEAR}, {Q_COUNT}}, {{Q_SET, 2, 1}, {Q_SYNC}}}, b2},
    {"clear-stat", synced, {{{Q_CLEAR}}, {{Q_STAT}, {Q_STAT}}}, b2},
    {"copy-set", synced, {{{Q_COPY}}, {{Q_SET, 2, 1}, {Q_SET, 3, 2}}}, b2},
    {"copy-sync", synced, {{{Q_COPY}}, {{Q_REMOVE, 0}, {Q_SYNC}}}, b2},
    {"3rebuild", synced, {{{Q_REBUILD}}, {{Q_SET, 2, 2}}, {{Q_SYNC}}}, b3},
  };
  LinSuite s;
  struct Db { const char* n; DbMaker mk; int main; };
  auto wt = TinyTree();
  wt.page_update_mode = TreeDBM::PAGE_UPDATE_WRITE;
  const std::vector<Db> dbs = {
    {"hash", HashMaker(TinyHash(false, 1)), 2}, {"hash appending", HashMaker(TinyHash(true, 1)), 2}, {"tree", TreeMaker(TinyTree()), 2},
    {"hash pos", HashMaker(TinyHash(false, 3), 1), 1}, {"tree write-through", TreeMaker(wt), 1},
    {"tiny", TinyMaker(1), 1}, {"baby", BabyMaker(), 1}, {"cache", CacheMaker(), 1}, {"stdhash", StdHashMaker(), 0}, {"stdtree", StdTreeMaker(), 0}};
  for (auto& d : dbs) {
    const int i = &d - &dbs[0];
    int n = i;
    for (auto x : sc) {
      // CacheDBM does not count in one step.
      if (std::string(d.n) == "cache") for (auto& v : x.threads) for (auto& o : v) if (o.kind == Q_COUNT || o.kind == Q_EACHADD || o.kind == Q_EACHGET) o = {Q_GET, 1};
      if (d.main < 2 && !th) {
        if (++n % 3) continue;
        if (d.main < 1) x.bound--;
      }
      if (!th && x.bound > 1 && x.name.find("rebuild") == std::string::npos && d.main < 2) x.bound--;
      s.Add(d.n, t, x, d.mk);
    }
  }
  auto t2 = TinySkip();
  t2.sort_mem_size = 1;
  t2.insert_in_order = false;
  for (auto& x : sk) s.Add("skip", t, x, SkipMaker(TinySkip()));
  for (auto& x : sk) { auto y = x; if (!th) y.bound = 1; s.Add("skip small memory", t, y, SkipMaker(t2)); }
  s.Run();
  mc::FinishReport();
}
