// Multi-record operations against every other operation, linearizable under every schedule up to the bound.
#include "dbs.h"
#include "tkrzw_dbm_shard.h"
#include "tkrzw_dbm_common_impl.h"
using namespace tkrzw;

// (Counting is not a snapshot with respect to multi-record operations, so nobody counts here.)
static DbMaker ShardMaker(const std::string& ext) {
  return [=](LDb* db) {
    db->path = Scratch() + "/casket." + ext;
    auto* d = new ShardDBM();
    db->dbm.reset(d);
    std::map<std::string, std::string> params = {{"num_shards", "2"}, {"num_buckets", "3"}};
    if (ext != "tkmt") { params["fbp_capacity"] = "4"; params["offset_width"] = "3"; }
    if (ext == "tkt") { params["max_page_size"] = "1"; params["max_branches"] = "2"; }
    const std::string path = db->path;
    Status s = d->OpenAdvanced(path, true, File::OPEN_TRUNCATE, params);
    if (s != Status::SUCCESS) mc::Fail("open: " + ToString(s));
    db->ordered = d->IsOrdered();
    db->reopen = [=] { Status s = d->Close(); s |= d->OpenAdvanced(path, true, File::OPEN_DEFAULT, params); return s; };
  };
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  mc::FsScope(Scratch());
  const bool th = Thorough();
  const int b2 = th ? 4 : 2, b3 = th ? 3 : 2;
  LTable t;
  // Neighbouring keys are in different shards.
  t.keys.clear();
  t.values = {LNum(1), LNum(22), std::string(60, 'x'), ""};
  for (int want = 0; t.keys.size() < 6; want ^= 1)
    for (char c = 'a'; c <= 'z'; c++) {
      const std::string k(1, c);
      if ((int)SecondaryHash(k, 2) == want && (t.keys.empty() || k > t.keys.back())) { t.keys.push_back(k); break; }
    }
  const std::vector<LOp> two = {{Q_SET, 0, 0}, {Q_SET, 1, 1}};
  const std::vector<LScen> multi = {
    {"swap-swap", two, {{{Q_SWAP, 0, 0, 1}}, {{Q_SWAP, 1, 0, 0}, {Q_READ2, 0, 0, 1}}}, b2},
    {"swap-read", two, {{{Q_SWAP, 0, 0, 1}, {Q_SWAP, 0, 0, 1}}, {{Q_READ2, 1, 0, 0}, {Q_READ2, 0, 0, 1}}}, b2},
    {"set-read", {}, {{{Q_MULTISET, 0, 0, 1}, {Q_MULTISET, 1, 1, 0}}, {{Q_READ2, 0, 0, 1}, {Q_READ2, 1, 0, 0}}}, b2},
    {"set-set", {}, {{{Q_MULTISET, 0, 0, 1}, {Q_READ2, 0, 0, 1}}, {{Q_MULTISET, 1, 1, 0}, {Q_READ2, 1, 0, 0}}}, b2},
    {"incr-incr", {}, {{{Q_INCR2, 0, 0, 1}, {Q_INCR2, 1, 0, 2}}, {{Q_INCR2, 1, 0, 0}, {Q_INCR2, 2, 0, 1}}}, b2},
    {"3 ring", {}, {{{Q_INCR2, 0, 0, 1}}, {{Q_INCR2, 1, 0, 2}}, {{Q_INCR2, 2, 0, 0}}}, b3},
    {"3 read", two, {{{Q_SWAP, 0, 0, 2}}, {{Q_SWAP, 1, 0, 0}}, {{Q_READ2, 0, 0, 1}, {Q_READ2, 2, 0, 1}}}, b3},
    {"same key", two, {{{Q_INCR2, 0, 0, 0}}, {{Q_INCR2, 0, 0, 0}, {Q_READ2, 0, 0, 0}}}, b2},
  };
  const std::vector<LScen> single = {
    {"swap-set", two, {{{Q_SWAP, 0, 0, 1}, {Q_GET, 1}}, {{Q_SET, 0, 2}, {Q_GET, 1}}}, b2},
    {"swap-remove", two, {{{Q_SWAP, 0, 0, 1}, {Q_READ2, 1, 0, 2}}, {{Q_REMOVE, 0}, {Q_READ2, 0, 0, 1}}}, b2},
    {"incr-both", {}, {{{Q_INCR2, 0, 0, 1}, {Q_GET, 0}}, {{Q_TOGGLE, 0, 1}, {Q_GET, 1}}}, b2},
    {"set-clear", two, {{{Q_MULTISET, 0, 0, 1}, {Q_READ2, 0, 0, 1}}, {{Q_CLEAR}, {Q_READ2, 1, 0, 2}}}, b2},
    {"rekey-read", two, {{{Q_REKEY, 0, 0, 2}}, {{Q_READ2, 0, 0, 2}, {Q_READ2, 2, 0, 0}}}, b2},
    {"rekey-rekey", two, {{{Q_REKEY, 0, 0, 2}, {Q_READ2, 1, 0, 2}}, {{Q_REKEY, 0, 0, 3}, {Q_GET, 2}}}, b2},
    {"rekey-back", two, {{{Q_REKEY, 0, 0, 1}}, {{Q_REKEY, 1, 0, 0}, {Q_READ2, 1, 0, 2}}}, b2},
    {"rekey-set", two, {{{Q_REKEY, 0, 0, 1}}, {{Q_SET, 0, 2}, {Q_REMOVE, 1}}}, b2},
    {"copy-remove", two, {{{Q_COPYKEY, 0, 0, 2}}, {{Q_REMOVE, 0}, {Q_GET, 2}}}, b2},
    {"grow", {{Q_SET, 0, 0}, {Q_SET, 1, 0}, {Q_SET, 2, 0}, {Q_SET, 3, 0}}, {{{Q_MULTISET, 0, 2, 3}, {Q_GET, 1}}, {{Q_MULTISET, 2, 2, 1}, {Q_GET, 3}}}, b2},
  };
  const std::vector<LScen> cmp = {
    {"cmpmulti-get", two, {{{Q_CMPMULTI, 0, 0, 2}}, {{Q_GET, 0}, {Q_GET, 2}}}, b2},
    {"cmpmulti-twice", two, {{{Q_CMPMULTI, 0, 0, 2}, {Q_GET, 0}}, {{Q_CMPMULTI, 0, 1, 2}, {Q_GET, 2}}}, b2},
    {"cmpmulti-back", two, {{{Q_CMPMULTI, 0, 0, 3}}, {{Q_CMPMULTI, 3, 1, 0}, {Q_GET, 3}}}, b2},
    {"cmpmulti-set", two, {{{Q_CMPMULTI, 0, 0, 2}}, {{Q_SETNEW, 2, 1}, {Q_REMOVE, 0}}}, b2},
    {"3 cmpmulti", two, {{{Q_CMPMULTI, 0, 0, 2}}, {{Q_CMPMULTI, 1, 1, 2}}, {{Q_GET, 2}, {Q_GET, 0}}}, b3},
  };
  LinSuite s;
  struct Db { const char* n; DbMaker mk; bool main; bool shard; };
  auto wt = TinyTree();
  wt.page_update_mode = TreeDBM::PAGE_UPDATE_WRITE;
  const std::vector<Db> dbs = {
    {"hash", HashMaker(TinyHash(false, 3)), true, false}, {"tree", TreeMaker(TinyTree()), true, false}, {"tiny", TinyMaker(3), true, false},
    {"baby", BabyMaker(), true, false}, {"cache", CacheMaker(), true, false}, {"hash appending", HashMaker(TinyHash(true, 1)), false, false},
    {"tree write-through", TreeMaker(wt), false, false}, {"stdhash", StdHashMaker(), false, false}, {"stdtree", StdTreeMaker(), false, false},
    {"shard hash", ShardMaker("tkh"), false, true}, {"shard tiny", ShardMaker("tkmt"), false, true}, {"shard tree", ShardMaker("tkt"), false, true}};
  for (auto& d : dbs) {
    int i = &d - &dbs[0];
    auto add = [&](const std::vector<LScen>& v, bool all) {
      for (auto x : v) {
        if (!d.main && !all && !th && ++i % 2) continue;
        if (!d.main && !th) x.bound--;
        s.Add(d.n, t, x, d.mk, std::string(d.n) == "hash" || std::string(d.n) == "tree");
      }
    };
    add(multi, d.shard);
    if (!d.shard) add(single, false);
    add(cmp, d.shard);
  }
  s.Run();
  mc::FinishReport();
}
