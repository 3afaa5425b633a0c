// Concurrent operations of HashDBM, linearizable under every schedule up to the preemption bound.
#include "lin.h"
#include "tkrzw_dbm_hash.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"
using namespace tkrzw;
typedef HashDBM::TuningParameters TP;

static std::function<void(LDb*)> Make(bool appending, int cls, int buckets, std::function<void(TP&)> more = nullptr) {
  return [=](LDb* db) {
    TP tp;
    tp.update_mode = appending ? HashDBM::UPDATE_APPENDING : HashDBM::UPDATE_IN_PLACE;
    tp.num_buckets = buckets;
    tp.offset_width = 3;
    tp.align_pow = 3;
    tp.fbp_capacity = 4;
    if (more) more(tp);
    db->path = Scratch() + "/casket.tkh";
    std::unique_ptr<File> f;
    if (cls == 0) f = std::make_unique<MemoryMapParallelFile>();
    else if (cls == 1) f = std::make_unique<PositionalParallelFile>();
    else if (cls == 2) f = std::make_unique<MemoryMapAtomicFile>();
    else f = std::make_unique<PositionalAtomicFile>();
    auto* d = new HashDBM(std::move(f));
    db->dbm.reset(d);
    Status s = d->OpenAdvanced(db->path, true, File::OPEN_TRUNCATE, tp);
    if (s != Status::SUCCESS) mc::Fail("open: " + ToString(s));
    db->reopen = [=] {
      Status s = d->Close();
      s |= d->OpenAdvanced(db->path, true, File::OPEN_DEFAULT, tp);
      if (s == Status::SUCCESS && (!d->IsHealthy() || d->IsAutoRestored())) s.Set(Status::BROKEN_DATA_ERROR, "unhealthy after a clean close");
      return s;
    };
    db->validate = [=]() -> std::string {
      Status s = d->ValidateHashBuckets();
      if (s != Status::SUCCESS) return "ValidateHashBuckets: " + ToString(s);
      s = d->ValidateRecords(-1, -1);
      return s == Status::SUCCESS ? "" : "ValidateRecords: " + ToString(s);
    };
  };
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  mc::FsScope(Scratch());
  const bool th = Thorough();
  const int b2 = th ? 4 : 2, b3 = th ? 3 : 2;
  LTable t;
  std::vector<LScen> sc = {
    // Two threads.
    {"set-get", {{Q_SET, 0, 0}}, {{{Q_SET, 0, 2}, {Q_GET, 0}}, {{Q_GET, 0}, {Q_SET, 0, 1}}}, b2},
    {"new-new", {}, {{{Q_SETNEW, 0, 0}, {Q_GET, 0}}, {{Q_SETNEW, 0, 1}, {Q_COUNT}}}, b2},
    {"append-append", {}, {{{Q_APPEND, 0, 0}, {Q_APPEND, 0, 2}}, {{Q_APPEND, 0, 1}, {Q_GET, 0}}}, b2},
    {"append-grow", {{Q_SET, 0, 2}, {Q_SET, 1, 2}}, {{{Q_APPEND, 0, 2}, {Q_GET, 1}}, {{Q_APPEND, 1, 2}, {Q_GET, 0}}}, b2},
    {"incr-incr", {}, {{{Q_INCR, 0, 0}, {Q_INCR, 1, 0}}, {{Q_INCR, 0, 1}, {Q_INCR, 1, 1}}}, b2},
    {"remove-set", {{Q_SET, 0, 2}, {Q_SET, 1, 2}}, {{{Q_REMOVE, 0}, {Q_COUNT}}, {{Q_SET, 0, 1}, {Q_REMOVE, 1}}}, b2},
    {"remove-reuse", {{Q_SET, 0, 2}, {Q_SET, 1, 2}}, {{{Q_REMOVE, 0}, {Q_SET, 2, 2}}, {{Q_REMOVE, 1}, {Q_SET, 3, 2}}}, b2},
    {"reuse-read", {{Q_SET, 0, 2}, {Q_SET, 1, 0}}, {{{Q_REMOVE, 0}, {Q_SET, 2, 2}}, {{Q_GET, 1}, {Q_GET, 0}}}, b2},
    {"cmpex", {{Q_SET, 0, 0}}, {{{Q_CMPEX, 0, 1, 0}, {Q_GET, 0}}, {{Q_CMPEX, 0, 2, 0}, {Q_CMPREAD, 1, 0}}}, b2},
    {"toggle", {}, {{{Q_TOGGLE, 0, 0}, {Q_TOGGLE, 1, 1}}, {{Q_TOGGLE, 0, 1}, {Q_TOGGLE, 1, 0}}}, b2},
    {"clear-set", {{Q_SET, 0, 0}, {Q_SET, 1, 0}}, {{{Q_CLEAR}, {Q_COUNT}}, {{Q_SET, 0, 1}, {Q_GET, 1}}}, b2},
    {"pop-pop", {{Q_SET, 0, 0}, {Q_SET, 1, 1}}, {{{Q_POP}}, {{Q_POP}}, {{Q_COUNT}}}, b3},
    {"push-push", {}, {{{Q_PUSH, 0, 0}}, {{Q_PUSH, 0, 1}}, {{Q_COUNT}}}, b3},
    // Three threads.
    {"3set", {{Q_SET, 0, 0}}, {{{Q_SET, 0, 2}}, {{Q_SET, 0, 1}}, {{Q_GET, 0}}}, b3},
    {"3mix", {{Q_SET, 0, 2}}, {{{Q_REMOVE, 0}}, {{Q_APPEND, 0, 1}}, {{Q_SETNEW, 0, 2}}}, b3},
    {"3count", {}, {{{Q_SET, 0, 2}}, {{Q_SET, 1, 1}}, {{Q_COUNT}, {Q_COUNT}}}, b3},
    {"3chain", {{Q_SET, 0, 0}, {Q_SET, 1, 0}}, {{{Q_REMOVE, 0}}, {{Q_SET, 2, 2}}, {{Q_GET, 1}, {Q_GET, 2}}}, b3},
    {"3clear", {{Q_SET, 0, 0}}, {{{Q_CLEAR}}, {{Q_INCR, 1, 0}}, {{Q_GETOLD, 0, 1}}}, b3},
  };
  LinSuite s;
  struct Db { const char* n; std::function<void(LDb*)> mk; bool main; };
  std::vector<Db> dbs = {{"inplace", Make(false, 0, 1), true}, {"appending", Make(true, 0, 1), true}, {"inplace 7 buckets", Make(false, 0, 7), false},
                         {"inplace crc zlib", Make(false, 0, 1, [](TP& t) { t.record_crc_mode = HashDBM::RECORD_CRC_32; t.record_comp_mode = HashDBM::RECORD_COMP_ZLIB; }), false},
                         {"inplace pos", Make(false, 1, 1), false}, {"appending pos", Make(true, 1, 3), false}, {"inplace mmap atomic", Make(false, 2, 1), false},
                         {"appending pos atomic", Make(true, 3, 1), false}};
  for (auto& d : dbs)
    for (size_t i = 0; i < sc.size(); i++) {
      auto x = sc[i];
      if (!d.main) { if (!th && i % 3 != (&d - &dbs[0]) % 3) continue; x.bound--; }
      s.Add(d.n, t, x, d.mk);
    }
  // Records of different buckets share the pool of free blocks, the end of the file and the counters.
  const std::vector<LScen> pool = {
    {"pool-one", {{Q_SET, 0, 2}, {Q_SET, 1, 2}, {Q_REMOVE, 0}}, {{{Q_SET, 2, 2}}, {{Q_SET, 3, 2}}}, b2},
    {"pool-two", {{Q_SET, 0, 2}, {Q_SET, 1, 2}}, {{{Q_REMOVE, 0}, {Q_SET, 2, 2}}, {{Q_REMOVE, 1}, {Q_SET, 3, 2}}}, b2},
    {"pool-grow", {{Q_SET, 0, 0}, {Q_SET, 1, 0}, {Q_SET, 2, 2}, {Q_REMOVE, 2}}, {{{Q_SET, 0, 2}}, {{Q_SET, 1, 2}, {Q_GET, 0}}}, b2},
  };
  for (auto& x : pool) s.Add("inplace 101 buckets", t, x, Make(false, 0, 101));
  s.Run();
  mc::FinishReport();
}
