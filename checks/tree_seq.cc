// TreeDBM against an ordered reference map: every short operation sequence and every small insertion and removal order.
#include "seqops.h"
#include "tkrzw_dbm_tree.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"
using namespace tkrzw;
typedef TreeDBM::TuningParameters TP;

static SeqConfig Cfg(const std::string& name, int cls, TP tp) {
  SeqConfig c;
  c.name = name;
  if (tp.key_comparator) {
    auto cmp = tp.key_comparator;
    c.less = [cmp](const std::string& a, const std::string& b) { return cmp(a, b) < 0; };
  }
  c.make = [=](Subject* s, const std::string& dir) {
    const std::string path = dir + "/casket.tkt";
    std::unique_ptr<File> f;
    if (cls == 0) f = std::make_unique<MemoryMapParallelFile>(); else f = std::make_unique<PositionalParallelFile>();
    auto* d = new TreeDBM(std::move(f));
    s->dbm.reset(d);
    s->ordered = true;
    Status st = d->OpenAdvanced(path, true, File::OPEN_TRUNCATE, tp);
    if (st != Status::SUCCESS) mc::Violation(name + " open", ToString(st));
    s->reopen = [=] {
      Status st = d->Close();
      // The stored tuning must do, except for what is documented as not stored.
      TP t2;
      t2.max_cached_pages = tp.max_cached_pages;
      t2.page_update_mode = tp.page_update_mode;
      st |= d->OpenAdvanced(path, true, File::OPEN_DEFAULT, t2);
      if (st == Status::SUCCESS && !d->IsHealthy()) st.Set(Status::BROKEN_DATA_ERROR, "unhealthy after a clean close");
      return st;
    };
    s->validate = [=]() -> std::string {
      Status st = d->ValidateHashBuckets();
      if (st != Status::SUCCESS) return "ValidateHashBuckets: " + ToString(st);
      st = d->ValidateRecords(-1, -1);
      if (st != Status::SUCCESS) return "ValidateRecords: " + ToString(st);
      return "";
    };
  };
  return c;
}

typedef std::function<void(const std::vector<Op>&)> Emit;

// Every order of inserting n records, then every prefix of every removal order.
static void Orders(int n, bool removals, int vsel, const Emit& emit) {
  std::vector<int> p(n);
  for (int i = 0; i < n; i++) p[i] = i;
  do {
    std::vector<Op> base;
    for (int i : p) base.push_back({SET, i, vsel >= 0 ? vsel : i % 3});
    if (!removals) { emit(base); continue; }
    std::vector<int> q(n);
    for (int i = 0; i < n; i++) q[i] = i;
    do {
      auto s = base;
      for (int i = 0; i < n - 1; i++) s.push_back({REMOVE, q[i]});
      emit(s);
    } while (std::next_permutation(q.begin(), q.end()));
  } while (std::next_permutation(p.begin(), p.end()));
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  SeqRunner r;
  r.Start();
  const bool th = Thorough();
  TP tiny;
  tiny.num_buckets = 3;
  tiny.max_page_size = 1;
  tiny.max_branches = 2;
  auto with = [](TP t, std::function<void(TP&)> f) { f(t); return t; };
  TP pages = with(tiny, [](TP& t) { t.max_page_size = 24; t.max_branches = 3; });
  TP uncached = with(tiny, [](TP& t) { t.max_cached_pages = 1; });
  TP defaults;
  std::vector<SeqConfig> base = {Cfg("one record per page", 0, tiny), Cfg("few records per page", 0, pages),
                                 Cfg("few records per page uncached", 1, with(pages, [](TP& t) { t.max_cached_pages = 1; t.page_update_mode = TreeDBM::PAGE_UPDATE_WRITE; }))};
  std::vector<SeqConfig> more = {
    Cfg("defaults", 0, with(defaults, [](TP& t) { t.num_buckets = 10; })),
    Cfg("one record per page uncached", 0, uncached),
    Cfg("write through", 0, with(tiny, [](TP& t) { t.page_update_mode = TreeDBM::PAGE_UPDATE_WRITE; t.max_cached_pages = 1; })),
    Cfg("appending", 0, with(pages, [](TP& t) { t.update_mode = HashDBM::UPDATE_APPENDING; t.max_cached_pages = 1; })),
    Cfg("zlib crc32 pos", 1, with(pages, [](TP& t) { t.record_comp_mode = HashDBM::RECORD_COMP_ZLIB; t.record_crc_mode = HashDBM::RECORD_CRC_32; t.max_cached_pages = 1; })),
    Cfg("width 5 align 6", 0, with(pages, [](TP& t) { t.offset_width = 5; t.align_pow = 6; })),
  };

  Keys kt;
  kt.keys = {"b", std::string("\0b", 2), std::string(130, 'k'), "", "a", "c", "bb"};
  kt.values = {"", "1", std::string(21, 'v'), std::string(130, 'w'), std::string(5000, 'x')};
  SeqFamily vocab;
  vocab.name = "vocab";
  vocab.keys = kt;
  vocab.alphabet = Vocabulary();
  vocab.len = 2;
  vocab.deep = 2;
  SeqFamily vocab_pre = vocab;
  vocab_pre.name = "vocab after 6 records";
  vocab_pre.pre = {{SET, 5, 1}, {SET, 0, 3}, {SET, 6, 0}, {SET, 1, 2}, {SET, 4, 1}, {SET, 2, 1}, {SET, 3, 3}, {REMOVE, 0}, {SET, 0, 2}};

  SeqFamily ord;
  ord.name = "orders";
  ord.keys.keys = {"a", "b", "c", "d", "e", "f", "g", "h"};
  ord.keys.values = {"1", "22", "333", std::string(40, 'z'), std::string(9, 'y')};
  ord.deep = 2;
  // From a tree of several levels: removals, insertions, reopening in every order.
  auto shape = [&](std::string name, std::vector<int> pre, int len) {
    SeqFamily f = ord;
    f.name = name;
    for (int i : pre) f.pre.push_back({SET, i, i % 3});
    for (int k = 0; k < 8; k++) { f.alphabet.push_back({REMOVE, k}); if (k % 2 == 0) f.alphabet.push_back({SET, k, 3}); }
    f.alphabet.push_back({REOPEN});
    f.alphabet.push_back({POPFIRST});
    f.len = len;
    return f;
  };
  std::vector<SeqFamily> shapes = {shape("ascending tree", {0, 1, 2, 3, 4, 5, 6, 7}, th ? 4 : 3), shape("descending tree", {7, 6, 5, 4, 3, 2, 1, 0}, th ? 4 : 2),
                                   shape("mixed tree", {3, 0, 6, 1, 7, 4, 2, 5}, th ? 4 : 3)};
  for (auto& c : base) { r.Run(c, vocab); r.Run(c, vocab_pre); }
  for (auto& c : base) for (auto& f : shapes) r.Run(c, f);
  r.RunGen(base[0], ord, [&](const Emit& e) { Orders(4, true, -1, e); Orders(th ? 8 : 7, false, -1, e); });
  r.RunGen(base[1], ord, [&](const Emit& e) { Orders(th ? 5 : 4, true, 4, e); Orders(6, false, 4, e); });
  if (!th) vocab_pre.len = 1;
  for (auto& c : more) {
    r.Run(c, vocab); r.Run(c, vocab_pre);
    for (auto f : shapes) { f.len = th ? 3 : 2; r.Run(c, f); }
    r.RunGen(c, ord, [&](const Emit& e) { Orders(th ? 4 : 3, true, -1, e); Orders(5, false, -1, e); });
  }
  // Comparators: the order and the equivalence of the keys are the comparator's.
  struct Cmp { const char* name; KeyComparator f; std::vector<std::string> keys; };
  auto be = [](int64_t v, int w) { return IntToStrBigEndian(v, w); };
  auto pr = [](std::string a, std::string b) { return SerializeStrPair(a, b); };
  std::vector<Cmp> cmps = {
    {"case", LexicalCaseKeyComparator, {"B", "a", "C", "d", "b", "aa"}},
    {"decimal", DecimalKeyComparator, {"10", "9", "-3", "100", "010", "0"}},
    {"hex", HexadecimalKeyComparator, {"10", "ff", "9", "A", "0a", "100"}},
    {"real", RealNumberKeyComparator, {"1.5", "-2.25", "10", "1e3", "1.50", "0"}},
    {"signed", SignedBigEndianKeyComparator, {be(5, 8), be(-5, 8), be(0, 4), be(-1, 2), be(-5, 1), be(300, 2)}},
    {"float", FloatBigEndianKeyComparator, {FloatToStrBigEndian(1.5, 8), FloatToStrBigEndian(-1.5, 8), FloatToStrBigEndian(0, 4), FloatToStrBigEndian(1e10, 8), FloatToStrBigEndian(1.5, 4), FloatToStrBigEndian(-1e10, 4)}},
    {"pair", PairLexicalKeyComparator, {pr("a", ""), pr("a", "b"), pr("", "z"), pr("ab", ""), pr("b", "a"), pr("a", "a")}},
    {"pair case", PairLexicalCaseKeyComparator, {pr("B", ""), pr("a", "b"), pr("", "z"), pr("Ab", ""), pr("b", "a"), pr("A", "a")}},
    {"pair decimal", PairDecimalKeyComparator, {pr("10", "x"), pr("9", "x"), pr("-1", ""), pr("9", "a"), pr("009", "a"), pr("0", "")}},
    {"pair hex", PairHexadecimalKeyComparator, {pr("10", "x"), pr("ff", "x"), pr("a", ""), pr("9", "a"), pr("0A", ""), pr("0", "")}},
    {"pair real", PairRealNumberKeyComparator, {pr("1.5", "x"), pr("-0.5", "x"), pr("1e3", ""), pr("1.50", "x"), pr("2", "b"), pr("2", "a")}},
    {"pair signed", PairSignedBigEndianKeyComparator, {pr(be(5, 8), "x"), pr(be(-5, 8), "x"), pr(be(0, 4), ""), pr(be(-5, 1), "x"), pr(be(5, 8), "a"), pr(be(7, 2), "")}},
    {"pair float", PairFloatBigEndianKeyComparator, {pr(FloatToStrBigEndian(1.5, 8), "x"), pr(FloatToStrBigEndian(-1.5, 8), "x"), pr(FloatToStrBigEndian(0, 4), ""), pr(FloatToStrBigEndian(1.5, 4), "x"), pr(FloatToStrBigEndian(3, 8), "a"), pr(FloatToStrBigEndian(3, 8), "")}},
  };
  for (auto& cm : cmps) {
    SeqFamily f = ord;
    f.name = "comparator";
    f.keys.keys = cm.keys;
    auto c = Cfg(std::string("comparator ") + cm.name, 0, with(tiny, [&](TP& t) { t.key_comparator = cm.f; t.max_page_size = 30; }));
    r.RunGen(c, f, [&](const Emit& e) {
      Orders(6, false, -1, e);
      Orders(3, true, -1, e);
    });
    for (int k = 0; k < 6; k++) { f.pre.push_back({SET, k, k % 3}); f.alphabet.push_back({REMOVE, k}); f.alphabet.push_back({APPEND, k, 1}); }
    f.alphabet.push_back({REKEY, 0, 0, 1});
    f.len = 2;
    r.Run(c, f);
  }
  // More pages than cache slots: pages are evicted and loaded again in the middle of everything.
  {
    SeqFamily f;
    f.name = "evictions";
    const int n = 150;
    for (int i = 0; i < n; i++) { char b[16]; sprintf(b, "%03d", i); f.keys.keys.push_back(b); }
    f.keys.values = {"1", "22", "", std::string(40, 'z')};
    for (int i = 0; i < n; i++) f.pre.push_back({SET, (i * 67) % n, i % 3});
    for (int k : {0, 7, 64, 65, 149}) { f.alphabet.push_back({REMOVE, k}); f.alphabet.push_back({SET, k, 3}); f.alphabet.push_back({APPEND, k, 1}); }
    for (auto o : std::vector<Op>{{EACH_SET, 0, 3}, {EACH_REMOVE}, {SYNC}, {REOPEN}, {REBUILD}, {POPFIRST}, {REKEY, 3, 0, 100}, {MULTI_SWAP, 10, 0, 74}}) f.alphabet.push_back(o);
    f.len = 1;
    for (int mode = 0; mode < 2; mode++) {
      auto c = Cfg(mode ? "many pages in few nodes" : "many pages", 0, with(uncached, [&](TP& t) { t.num_buckets = 50; if (mode) { t.max_branches = 16; t.max_page_size = 20; } }));
      f.len = th || mode == 0 ? 2 : 1;
      r.Run(c, f);
    }
    // Removing long runs of records, so that whole subtrees go away.
    SeqFamily g = f;
    g.alphabet.clear();
    auto c = Cfg("many pages", 0, with(uncached, [](TP& t) { t.num_buckets = 50; }));
    r.RunGen(c, g, [&](const Emit& e) {
      for (int a = 0; a < n; a += th ? 5 : 15)
        for (int b = a + 10; b <= n; b += th ? 5 : 20)
          for (int dir = 0; dir < 2; dir++) {
            std::vector<Op> s;
            for (int i = a; i < b; i++) s.push_back({REMOVE, dir ? a + b - 1 - i : i});
            e(s);
          }
    });
  }
  // Custom comparators must be given again at every opening.
  if (th) { vocab.len = 3; r.Run(base[1], vocab); }
  r.Finish();
  mc::FinishReport();
}
