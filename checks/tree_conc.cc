// Concurrent operations of TreeDBM, linearizable under every schedule up to the preemption bound.
#include "lin.h"
#include "tkrzw_dbm_tree.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"
using namespace tkrzw;
typedef TreeDBM::TuningParameters TP;

static std::string ReadFile(const std::string& p) {
  std::string r;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return r;
  char b[8192];
  size_t n;
  while ((n = fread(b, 1, sizeof(b), f)) > 0) r.append(b, n);
  fclose(f);
  return r;
}
static void WriteFileTo(const std::string& p, const std::string& d) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f) return;
  fwrite(d.data(), 1, d.size(), f);
  fclose(f);
}

static TP Tiny(std::function<void(TP&)> more = nullptr) {
  TP tp;
  tp.num_buckets = 3;
  tp.max_page_size = 1;
  tp.max_branches = 2;
  tp.offset_width = 3;
  tp.align_pow = 0;
  tp.fbp_capacity = 4;
  if (more) more(tp);
  return tp;
}
static std::unique_ptr<TreeDBM> NewTree(int cls) {
  std::unique_ptr<File> f;
  if (cls == 0) f = std::make_unique<MemoryMapParallelFile>(); else f = std::make_unique<PositionalParallelFile>();
  return std::make_unique<TreeDBM>(std::move(f));
}
static std::function<void(LDb*)> Make(int cls, TP tp, const std::string* image = nullptr, const LMap* content = nullptr) {
  return [=](LDb* db) {
    db->path = Scratch() + "/casket.tkt";
    auto u = NewTree(cls);
    auto* d = u.get();
    db->dbm = std::move(u);
    db->ordered = true;
    if (image) { WriteFileTo(db->path, *image); db->initial = *content; }
    Status s = d->OpenAdvanced(db->path, true, image ? File::OPEN_DEFAULT : File::OPEN_TRUNCATE, tp);
    if (s != Status::SUCCESS) mc::Fail("open: " + ToString(s));
    db->reopen = [=] {
      Status s = d->Close();
      s |= d->OpenAdvanced(db->path, true, File::OPEN_DEFAULT, tp);
      if (s == Status::SUCCESS && (!d->IsHealthy() || d->IsAutoRestored())) s.Set(Status::BROKEN_DATA_ERROR, "unhealthy after a clean close");
      return s;
    };
    db->validate = [=]() -> std::string {
      Status s = d->ValidateHashBuckets();
      if (s != Status::SUCCESS) return "ValidateHashBuckets: " + ToString(s);
      s = d->ValidateRecords(-1, -1);
      return s == Status::SUCCESS ? "" : "ValidateRecords: " + ToString(s);
    };
  };
}
static std::string Key(int i) { char b[8]; snprintf(b, sizeof(b), "%03d", i); return b; }

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  mc::FsScope(Scratch());
  const bool th = Thorough();
  const int b2 = th ? 4 : 2, b3 = th ? 3 : 2;
  LTable t;
  t.keys = {"a", "b", "c", "d", "e", "f", "g", "h"};
  const std::vector<LOp> four = {{Q_SET, 1, 0}, {Q_SET, 3, 0}, {Q_SET, 5, 0}, {Q_SET, 7, 0}};
  std::vector<LScen> sc = {
    {"set-get", {{Q_SET, 0, 0}}, {{{Q_SET, 0, 2}, {Q_GET, 0}}, {{Q_GET, 0}, {Q_SET, 0, 1}}}, b2},
    {"split-get", four, {{{Q_SET, 2, 2}, {Q_GET, 3}}, {{Q_GET, 2}, {Q_GET, 1}}}, b2},
    {"split-split", four, {{{Q_SET, 0, 0}, {Q_SET, 2, 0}}, {{Q_SET, 4, 1}, {Q_SET, 6, 1}}}, b2},
    {"split-same", {}, {{{Q_SET, 0, 0}, {Q_SET, 1, 0}}, {{Q_SET, 2, 0}, {Q_SET, 1, 1}}}, b2},
    {"merge-get", four, {{{Q_REMOVE, 3}, {Q_GET, 5}}, {{Q_GET, 3}, {Q_COUNT}}}, b2},
    {"merge-merge", four, {{{Q_REMOVE, 1}, {Q_REMOVE, 3}}, {{Q_REMOVE, 5}, {Q_REMOVE, 7}}}, b2},
    {"merge-split", four, {{{Q_REMOVE, 3}, {Q_REMOVE, 5}}, {{Q_SET, 4, 0}, {Q_SET, 2, 2}}}, b2},
    {"append-incr", {{Q_SET, 1, 0}}, {{{Q_APPEND, 1, 2}, {Q_INCR, 2, 0}}, {{Q_INCR, 2, 1}, {Q_APPEND, 1, 1}}}, b2},
    {"new-new", four, {{{Q_SETNEW, 2, 0}, {Q_GET, 2}}, {{Q_SETNEW, 2, 1}, {Q_COUNT}}}, b2},
    {"toggle", four, {{{Q_TOGGLE, 1, 0}, {Q_TOGGLE, 2, 1}}, {{Q_TOGGLE, 1, 1}, {Q_TOGGLE, 2, 0}}}, b2},
    {"clear-set", four, {{{Q_CLEAR}, {Q_SET, 0, 0}}, {{Q_SET, 2, 1}, {Q_GET, 3}}}, b2},
    {"pop-set", {{Q_SET, 1, 0}, {Q_SET, 2, 1}}, {{{Q_POP}, {Q_POP}}, {{Q_SET, 0, 0}, {Q_GET, 1}}}, b2},
    {"push-push", {}, {{{Q_PUSH, 0, 0}}, {{Q_PUSH, 0, 1}}, {{Q_COUNT}}}, b3},
    {"3split", four, {{{Q_SET, 2, 0}}, {{Q_SET, 4, 0}}, {{Q_GET, 2}, {Q_GET, 5}}}, b3},
    {"3merge", four, {{{Q_REMOVE, 3}}, {{Q_REMOVE, 5}}, {{Q_GET, 7}, {Q_COUNT}}}, b3},
    {"3mix", four, {{{Q_REMOVE, 3}}, {{Q_SET, 2, 2}}, {{Q_CMPEX, 3, 1, 0}}}, b3},
  };
  LinSuite s;
  // A tree of more pages than a small cache has room for; pages 1, 65, 129 and 193 share a cache slot.
  const int NBIG = 200;
  LMap big;
  std::string image;
  {
    auto d = NewTree(0);
    const std::string path = Scratch() + "/big.tkt";
    d->OpenAdvanced(path, true, File::OPEN_TRUNCATE, Tiny([](TP& t) { t.num_buckets = 300; t.max_branches = 16; }));
    for (int i = 0; i < NBIG; i++) { d->Set(Key(i), "v"); big[Key(i)] = "v"; }
    d->Close();
    image = ReadFile(path);
    unlink(path.c_str());
  }
  LTable tb = t;
  tb.keys.clear();
  for (int i = 0; i < NBIG; i++) tb.keys.push_back(Key(i));
  const auto mkbig = Make(0, Tiny([](TP& t) { t.max_cached_pages = 1; }), &image, &big);
  std::vector<LScen> bs;
  for (int off : th ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8} : std::vector<int>{5, 6, 7}) {
    // `off` operations beforehand move the clock that decides when a slot is trimmed: the last reads of
    // the second thread evict the page of the first key.
    std::vector<LOp> pre;
    for (int i = 0; i < off; i++) pre.push_back({Q_GET, 30 + i});
    bs.push_back({"evict-update " + std::to_string(off), pre, {{{Q_GET, 1}}, {{Q_SET, 1, 0}, {Q_GET, 65}, {Q_GET, 129}, {Q_GET, 193}, {Q_SET, 1, 1}}}, 1});
    bs.push_back({"evict-two " + std::to_string(off), pre, {{{Q_APPEND, 1, 0}, {Q_GET, 129}, {Q_GET, 65}}, {{Q_APPEND, 1, 1}, {Q_GET, 65}, {Q_GET, 193}, {Q_GET, 1}}}, 1});
  }
  struct Db { const char* n; std::function<void(LDb*)> mk; bool main; };
  std::vector<Db> dbs = {{"inplace", Make(0, Tiny()), true},
                         {"write-through", Make(0, Tiny([](TP& t) { t.page_update_mode = TreeDBM::PAGE_UPDATE_WRITE; })), false},
                         {"appending", Make(0, Tiny([](TP& t) { t.update_mode = HashDBM::UPDATE_APPENDING; t.max_branches = 3; })), false},
                         {"pos", Make(1, Tiny([](TP& t) { t.max_page_size = 20; })), false}};
  if (mc::args().kv["big"] != "only")
  for (auto& d : dbs)
    for (size_t i = 0; i < sc.size(); i++) {
      auto x = sc[i];
      if (!d.main) { if (!th && i % 3 != (&d - &dbs[0]) % 3) continue; x.bound--; }
      s.Add(d.n, t, x, d.mk);
    }
  for (auto& x : bs) s.Add("big", tb, x, mkbig, true);
  s.Run();
  mc::FinishReport();
}
