// HashDBM against a reference map: every short operation sequence, over tuning parameters and file classes.
#include "seqops.h"
#include "tkrzw_dbm_hash.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_std.h"
using namespace tkrzw;
typedef HashDBM::TuningParameters TP;

static std::unique_ptr<File> MakeFile(int cls) {
  switch (cls) {
    case 0: return std::make_unique<MemoryMapParallelFile>();
    case 1: return std::make_unique<MemoryMapAtomicFile>();
    case 2: return std::make_unique<PositionalParallelFile>();
    case 3: return std::make_unique<PositionalAtomicFile>();
    case 5: {
      auto f = std::make_unique<PositionalParallelFile>();
      f->SetAccessStrategy(512, PositionalFile::ACCESS_DEFAULT);
      f->SetHeadBuffer(1024);
      return f;
    }
    default: return std::make_unique<StdFile>();
  }
}

static SeqConfig Cfg(const std::string& name, int cls, TP tp) {
  SeqConfig c;
  c.name = name;
  c.make = [=](Subject* s, const std::string& dir) {
    const std::string path = dir + "/casket.tkh";
    auto* d = new HashDBM(MakeFile(cls));
    s->dbm.reset(d);
    Status st = d->OpenAdvanced(path, true, File::OPEN_TRUNCATE, tp);
    if (st != Status::SUCCESS) mc::Violation(name + " open", ToString(st));
    s->reopen = [=] {
      Status st = d->Close();
      st |= d->OpenAdvanced(path, true, File::OPEN_DEFAULT, tp);
      if (st == Status::SUCCESS && !d->IsHealthy()) st.Set(Status::BROKEN_DATA_ERROR, "unhealthy after a clean close");
      return st;
    };
    s->validate = [=]() -> std::string {
      Status st = d->ValidateHashBuckets();
      if (st != Status::SUCCESS) return "ValidateHashBuckets: " + ToString(st);
      st = d->ValidateRecords(-1, -1);
      if (st != Status::SUCCESS) return "ValidateRecords: " + ToString(st);
      return "";
    };
  };
  return c;
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  SeqRunner r;
  r.Start();
  const bool th = Thorough();
  TP in, ap;
  in.update_mode = HashDBM::UPDATE_IN_PLACE; in.num_buckets = 2; in.offset_width = 3; in.align_pow = 0; in.min_read_size = 1;
  ap = in; ap.update_mode = HashDBM::UPDATE_APPENDING;
  auto with = [](TP t, std::function<void(TP&)> f) { f(t); return t; };

  Keys kt;
  kt.keys = {"a", std::string("\0b", 2), std::string(130, 'k'), ""};
  kt.values = {"", "1", std::string(21, 'v'), std::string(130, 'w'), std::string(5000, 'x')};

  // The full vocabulary, short sequences.
  SeqFamily vocab;
  vocab.name = "vocab";
  vocab.keys = kt;
  vocab.alphabet = Vocabulary();
  vocab.len = 2;
  vocab.deep = 2;
  SeqFamily vocab_pre = vocab;
  vocab_pre.name = "vocab after 3 records";
  vocab_pre.pre = {{SET, 0, 3}, {SET, 1, 2}, {SET, 2, 1}, {SET, 3, 3}, {REMOVE, 0}, {SET, 0, 2}};

  // Sizes: deep sequences of sets and removals with sizes around the width boundaries.
  auto sizes = [&](std::vector<int> sz, int len, std::string name) {
    SeqFamily f;
    f.name = name;
    f.keys.keys = {"a", "b", std::string(128, 'q')};
    for (int s : sz) f.keys.values.push_back(std::string(s, 'a' + s % 26));
    for (int k = 0; k < 2; k++) {
      for (size_t v = 0; v < sz.size(); v++) f.alphabet.push_back({SET, k, (int)v});
      f.alphabet.push_back({REMOVE, k});
    }
    f.alphabet.push_back({SET, 2, 0});
    f.alphabet.push_back({REMOVE, 2});
    f.len = len;
    return f;
  };
  SeqFamily reuse = sizes({0, 12, 30}, th ? 6 : 5, "reuse of space");
  SeqFamily width = sizes({127, 128, 126, 16383, 16384}, th ? 4 : 3, "size boundaries");
  // Chains: more records than buckets, removed in every order.
  SeqFamily chain;
  chain.name = "chains";
  chain.keys.keys = {"a", "b", "c", "d", "e", "f"};
  chain.keys.values = {"1", std::string(40, 'z'), "333"};
  for (int k = 0; k < 6; k++) chain.pre.push_back({SET, k, k % 3});
  for (int k = 0; k < 6; k++) { chain.alphabet.push_back({REMOVE, k}); if (k % 2) chain.alphabet.push_back({SET, k, 1}); }
  chain.alphabet.push_back({REBUILD});
  chain.alphabet.push_back({POPFIRST});
  chain.len = th ? 5 : 3;

  std::vector<SeqConfig> base = {
    Cfg("in-place", 0, in), Cfg("appending", 0, ap),
    Cfg("in-place pos-para aligned", 2, with(in, [](TP& t) { t.align_pow = 5; t.num_buckets = 1; t.offset_width = 4; t.fbp_capacity = 1; })),
  };
  std::vector<SeqConfig> more = {
    Cfg("in-place crc8 mmap-atom", 1, with(in, [](TP& t) { t.record_crc_mode = HashDBM::RECORD_CRC_8; t.offset_width = 5; })),
    Cfg("in-place crc16 pos-atom", 3, with(in, [](TP& t) { t.record_crc_mode = HashDBM::RECORD_CRC_16; t.align_pow = 2; })),
    Cfg("in-place crc32 std", 4, with(in, [](TP& t) { t.record_crc_mode = HashDBM::RECORD_CRC_32; t.min_read_size = 256; })),
    Cfg("appending crc32 pos-para", 2, with(ap, [](TP& t) { t.record_crc_mode = HashDBM::RECORD_CRC_32; t.align_pow = 3; })),
    Cfg("zlib", 0, with(in, [](TP& t) { t.record_comp_mode = HashDBM::RECORD_COMP_ZLIB; })),
    Cfg("zstd crc8", 0, with(in, [](TP& t) { t.record_comp_mode = HashDBM::RECORD_COMP_ZSTD; t.record_crc_mode = HashDBM::RECORD_CRC_8; })),
    Cfg("lz4 appending", 2, with(ap, [](TP& t) { t.record_comp_mode = HashDBM::RECORD_COMP_LZ4; })),
    Cfg("rc4", 0, with(in, [](TP& t) { t.record_comp_mode = HashDBM::RECORD_COMP_RC4; t.cipher_key = "key"; })),
    Cfg("aes appending crc16", 0, with(ap, [](TP& t) { t.record_comp_mode = HashDBM::RECORD_COMP_AES; t.cipher_key = "secret"; t.record_crc_mode = HashDBM::RECORD_CRC_16; })),
    Cfg("cached buckets", 5, with(in, [](TP& t) { t.cache_buckets = 1; t.fbp_capacity = 0; t.num_buckets = 100; })),
    Cfg("in-place defaults few buckets", 0, with(TP(), [](TP& t) { t.num_buckets = 7; })),
    Cfg("in-place width 6 align 9", 0, with(in, [](TP& t) { t.offset_width = 6; t.align_pow = 9; t.min_read_size = 0; })),
  };
  for (auto& c : base) { r.Run(c, vocab); r.Run(c, vocab_pre); r.Run(c, reuse); r.Run(c, width); r.Run(c, chain); }
  if (!th) vocab_pre.len = 1;
  reuse.len = th ? 5 : 3;
  width.len = th ? 3 : 2;
  chain.len = th ? 3 : 2;
  for (auto& c : more) { r.Run(c, vocab); r.Run(c, vocab_pre); r.Run(c, reuse); r.Run(c, width); r.Run(c, chain); }
  if (th) { vocab.len = 3; for (int i = 0; i < 2; i++) r.Run(base[i], vocab); }
  // The slow compressor only on its own sizes.
  reuse.len = 2;
  r.Run(Cfg("lzma", 0, with(in, [](TP& t) { t.record_comp_mode = HashDBM::RECORD_COMP_LZMA; })), reuse);
  r.Finish();
  mc::FinishReport();
}
