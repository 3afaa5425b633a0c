// Small databases of every class for the concurrency harnesses.
#pragma once
#include "lin.h"
#include "tkrzw_dbm_baby.h"
#include "tkrzw_dbm_cache.h"
#include "tkrzw_dbm_hash.h"
#include "tkrzw_dbm_skip.h"
#include "tkrzw_dbm_std.h"
#include "tkrzw_dbm_tiny.h"
#include "tkrzw_dbm_tree.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"

typedef std::function<void(LDb*)> DbMaker;

inline std::unique_ptr<tkrzw::File> AnyFile(int cls) {
  using namespace tkrzw;
  if (cls == 1) return std::make_unique<PositionalParallelFile>();
  if (cls == 2) return std::make_unique<MemoryMapAtomicFile>();
  if (cls == 3) return std::make_unique<PositionalAtomicFile>();
  return std::make_unique<MemoryMapParallelFile>();
}
inline tkrzw::HashDBM::TuningParameters TinyHash(bool appending, int buckets) {
  using namespace tkrzw;
  HashDBM::TuningParameters tp;
  tp.update_mode = appending ? HashDBM::UPDATE_APPENDING : HashDBM::UPDATE_IN_PLACE;
  tp.num_buckets = buckets;
  tp.offset_width = 3;
  tp.align_pow = 3;
  tp.fbp_capacity = 4;
  return tp;
}
inline DbMaker HashMaker(tkrzw::HashDBM::TuningParameters tp, int cls = 0) {
  using namespace tkrzw;
  return [=](LDb* db) {
    db->path = Scratch() + "/casket.tkh";
    auto* d = new HashDBM(AnyFile(cls));
    db->dbm.reset(d);
    Status s = d->OpenAdvanced(db->path, true, File::OPEN_TRUNCATE, tp);
    if (s != Status::SUCCESS) mc::Fail("open: " + ToString(s));
    const std::string path = db->path;
    db->rebuild = [=] { return d->RebuildAdvanced(tp); };
    db->reopen = [=] {
      Status s = d->Close();
      s |= d->OpenAdvanced(path, true, File::OPEN_DEFAULT, tp);
      if (s == Status::SUCCESS && (!d->IsHealthy() || d->IsAutoRestored())) s.Set(Status::BROKEN_DATA_ERROR, "unhealthy after a clean close");
      return s;
    };
    db->validate = [=]() -> std::string {
      Status s = d->ValidateHashBuckets();
      if (s != Status::SUCCESS) return "ValidateHashBuckets: " + ToString(s);
      s = d->ValidateRecords(-1, -1);
      return s == Status::SUCCESS ? "" : "ValidateRecords: " + ToString(s);
    };
  };
}
inline tkrzw::TreeDBM::TuningParameters TinyTree(int page = 1, int branches = 2) {
  tkrzw::TreeDBM::TuningParameters tp;
  tp.num_buckets = 3;
  tp.max_page_size = page;
  tp.max_branches = branches;
  tp.offset_width = 3;
  tp.align_pow = 0;
  tp.fbp_capacity = 4;
  return tp;
}
inline DbMaker TreeMaker(tkrzw::TreeDBM::TuningParameters tp, int cls = 0) {
  using namespace tkrzw;
  return [=](LDb* db) {
    db->path = Scratch() + "/casket.tkt";
    auto* d = new TreeDBM(AnyFile(cls));
    db->dbm.reset(d);
    db->ordered = true;
    Status s = d->OpenAdvanced(db->path, true, File::OPEN_TRUNCATE, tp);
    if (s != Status::SUCCESS) mc::Fail("open: " + ToString(s));
    const std::string path = db->path;
    db->rebuild = [=] { return d->RebuildAdvanced(tp); };
    db->reopen = [=] {
      Status s = d->Close();
      s |= d->OpenAdvanced(path, true, File::OPEN_DEFAULT, tp);
      if (s == Status::SUCCESS && (!d->IsHealthy() || d->IsAutoRestored())) s.Set(Status::BROKEN_DATA_ERROR, "unhealthy after a clean close");
      return s;
    };
    db->validate = [=]() -> std::string {
      Status s = d->ValidateHashBuckets();
      if (s != Status::SUCCESS) return "ValidateHashBuckets: " + ToString(s);
      s = d->ValidateRecords(-1, -1);
      return s == Status::SUCCESS ? "" : "ValidateRecords: " + ToString(s);
    };
  };
}
inline DbMaker SkipMaker(tkrzw::SkipDBM::TuningParameters tp) {
  using namespace tkrzw;
  return [=](LDb* db) {
    db->path = Scratch() + "/casket.tks";
    auto* d = new SkipDBM(std::make_unique<MemoryMapParallelFile>());
    db->dbm.reset(d);
    db->ordered = true;
    db->skip = true;
    Status s = d->OpenAdvanced(db->path, true, File::OPEN_TRUNCATE, tp);
    if (s != Status::SUCCESS) mc::Fail("open: " + ToString(s));
    const std::string path = db->path;
    db->reopen = [=] { Status s = d->Close(); s |= d->OpenAdvanced(path, true, File::OPEN_DEFAULT, tp); return s; };
    db->sync = [=](bool hard) { return d->SynchronizeAdvanced(hard, nullptr, SkipDBM::ReduceToLast); };
    db->validate = [=]() -> std::string { Status s = d->ValidateRecords(); return s == Status::SUCCESS ? "" : "ValidateRecords: " + ToString(s); };
  };
}
inline tkrzw::SkipDBM::TuningParameters TinySkip() {
  tkrzw::SkipDBM::TuningParameters tp;
  tp.offset_width = 3;
  tp.step_unit = 2;
  tp.max_level = 2;
  return tp;
}
inline DbMaker MemMaker(bool ordered, std::function<tkrzw::DBM*(std::unique_ptr<tkrzw::File>)> mk) {
  using namespace tkrzw;
  return [=](LDb* db) {
    db->path = Scratch() + "/casket.flat";
    DBM* d = mk(std::make_unique<PositionalParallelFile>());
    db->dbm.reset(d);
    db->ordered = ordered;
    Status s = d->Open(db->path, true, File::OPEN_TRUNCATE);
    if (s != Status::SUCCESS) mc::Fail("open: " + ToString(s));
    const std::string path = db->path;
    db->reopen = [=] { Status s = d->Close(); s |= d->Open(path, true, File::OPEN_DEFAULT); return s; };
  };
}
inline DbMaker TinyMaker(int buckets = 1) { return MemMaker(false, [=](std::unique_ptr<tkrzw::File> f) { return new tkrzw::TinyDBM(std::move(f), buckets); }); }
inline DbMaker BabyMaker() { return MemMaker(true, [](std::unique_ptr<tkrzw::File> f) { return new tkrzw::BabyDBM(std::move(f)); }); }
inline DbMaker CacheMaker() { return MemMaker(false, [](std::unique_ptr<tkrzw::File> f) { return new tkrzw::CacheDBM(std::move(f), 1000); }); }
inline DbMaker StdHashMaker() { return MemMaker(false, [](std::unique_ptr<tkrzw::File> f) { return new tkrzw::StdHashDBM(std::move(f), 1); }); }
inline DbMaker StdTreeMaker() { return MemMaker(true, [](std::unique_ptr<tkrzw::File> f) { return new tkrzw::StdTreeDBM(std::move(f)); }); }
