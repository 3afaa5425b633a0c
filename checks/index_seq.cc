// Secondary indexes: every sequence of operations up to a depth against a sorted set of pairs.
#include <cmath>
#include "conc.h"
#include "seqstub.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_std.h"
#include "tkrzw_index.h"
using namespace tkrzw;
static double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
typedef std::pair<std::string, std::string> P;
typedef std::vector<std::string> V;

struct It {
  virtual ~It() {}
  virtual void First() = 0;
  virtual void Last() = 0;
  virtual void Jump(const P& p, bool novalue) = 0;
  virtual void Next() = 0;
  virtual void Previous() = 0;
  virtual bool Get(std::string* k, std::string* v) = 0;
};
struct Index {
  virtual ~Index() {}
  virtual bool Check(const P& p) = 0;
  virtual V Values(const std::string& k, size_t max) = 0;
  virtual bool Add(const P& p) = 0;
  virtual int Remove(const P& p) = 0;  // 1: removed, 0: not found, -1: an error, 2: not told
  virtual long Count() = 0;
  virtual bool Clear() = 0;
  virtual std::unique_ptr<It> Iter() = 0;
  virtual bool Reopen(bool) { return true; }
  virtual bool Rebuild() { return true; }
  virtual bool Sync(bool) { return true; }
  virtual bool Close() { return true; }
};
template <typename I> struct StrIt : It {
  std::unique_ptr<typename I::Iterator> it;
  explicit StrIt(I* i) : it(i->MakeIterator()) {}
  void First() override { it->First(); }
  void Last() override { it->Last(); }
  void Jump(const P& p, bool novalue) override { if (novalue) it->Jump(p.first); else it->Jump(p.first, p.second); }
  void Next() override { it->Next(); }
  void Previous() override { it->Previous(); }
  bool Get(std::string* k, std::string* v) override { return it->Get(k, v); }
};
template <typename I> struct MemX : Index {
  std::unique_ptr<I> i;
  explicit MemX(I* p) : i(p) {}
  bool Check(const P& p) override { return i->Check(p.first, p.second); }
  V Values(const std::string& k, size_t max) override { return i->GetValues(k, max); }
  bool Add(const P& p) override { i->Add(p.first, p.second); return true; }
  int Remove(const P& p) override { i->Remove(p.first, p.second); return 2; }
  long Count() override { return i->Count(); }
  bool Clear() override { i->Clear(); return true; }
  std::unique_ptr<It> Iter() override { return std::unique_ptr<It>(new StrIt<I>(i.get())); }
};
template <typename I> struct FileX : Index {
  std::unique_ptr<I> i;
  std::function<Status(I*, bool writable)> open;
  explicit FileX(I* p, std::function<Status(I*, bool)> o) : i(p), open(o) { ok = open(i.get(), true) == Status::SUCCESS; }
  bool ok;
  bool Check(const P& p) override { return i->Check(p.first, p.second); }
  V Values(const std::string& k, size_t max) override { return i->GetValues(k, max); }
  bool Add(const P& p) override { return i->Add(p.first, p.second) == Status::SUCCESS; }
  int Remove(const P& p) override { const Status s = i->Remove(p.first, p.second); return s == Status::SUCCESS ? 1 : s == Status::NOT_FOUND_ERROR ? 0 : -1; }
  long Count() override { return i->Count(); }
  bool Clear() override { return i->Clear() == Status::SUCCESS; }
  std::unique_ptr<It> Iter() override { return std::unique_ptr<It>(new StrIt<I>(i.get())); }
  bool Reopen(bool writable) override {
    if (!i->IsOpen() || i->Close() != Status::SUCCESS || i->IsOpen()) return false;
    return open(i.get(), writable) == Status::SUCCESS && i->IsOpen() && i->IsWritable() == writable;
  }
  bool Rebuild() override { return i->Rebuild() == Status::SUCCESS; }
  bool Sync(bool h) override { return i->Synchronize(h) == Status::SUCCESS; }
  bool Close() override { return i->Close() == Status::SUCCESS; }
};
// StdIndex of numbers: the strings are decimal numbers.
struct Desc { bool operator()(const std::pair<int, int>& a, const std::pair<int, int>& b) const { return a.first != b.first ? a.first < b.first : a.second > b.second; } };
template <typename I> struct NumX : Index {
  I i;
  static int N(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str()); }
  struct NIt : It {
    std::unique_ptr<typename I::Iterator> it;
    explicit NIt(I* i) : it(i->MakeIterator()) {}
    void First() override { it->First(); }
    void Last() override { it->Last(); }
    void Jump(const P& p, bool) override { it->Jump(N(p.first), N(p.second)); }
    void Next() override { it->Next(); }
    void Previous() override { it->Previous(); }
    bool Get(std::string* k, std::string* v) override {
      int a = 0, b = 0;
      if (!it->Get(k ? &a : nullptr, v ? &b : nullptr)) return false;
      if (k) *k = std::to_string(a);
      if (v) *v = std::to_string(b);
      return true;
    }
  };
  bool Check(const P& p) override { return i.Check(N(p.first), N(p.second)); }
  V Values(const std::string& k, size_t max) override { V r; for (int x : i.GetValues(N(k), max)) r.push_back(std::to_string(x)); return r; }
  bool Add(const P& p) override { i.Add(N(p.first), N(p.second)); return true; }
  int Remove(const P& p) override { i.Remove(N(p.first), N(p.second)); return 2; }
  long Count() override { return i.Count(); }
  bool Clear() override { i.Clear(); return true; }
  std::unique_ptr<It> Iter() override { return std::unique_ptr<It>(new NIt(&i)); }
};

struct Cfg {
  std::string name;
  bool lazy, file;
  V keys, values;  // in the order of the index
  std::function<Index*(const std::string& dir)> make;
};
struct Op { char kind; int k = 0, v = 0; };
typedef std::vector<Op> Ops;
static std::string Name(const Op& o) {
  std::string s(1, o.kind);
  if (strchr("ARJV", o.kind)) s += std::to_string(o.k) + "," + std::to_string(o.v);
  return s;
}

static std::string Show(const std::string& s) {
  std::string r = "'";
  for (char c : s) { if (c >= 32 && c < 127) r += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); r += b; } }
  return r + "'";
}
static std::string Show(const P& p) { return "(" + Show(p.first) + ", " + Show(p.second) + ")"; }

struct Case {
  const Cfg& c;
  std::unique_ptr<Index> x;
  std::unique_ptr<It> it;
  std::set<std::pair<int, int>> m;
  // The position: -1: at the end, 0: not known, 1: at "at", 2: at the first not less than "at".
  int pos = -1;
  std::pair<int, int> at;
  std::string err;
  Case(const Cfg& cc, const std::string& dir) : c(cc), x(cc.make(dir)) { it = x->Iter(); }
  ~Case() { it.reset(); }
  P Pair(std::pair<int, int> i) const { return P(c.keys[i.first], c.values[i.second]); }
  bool Bad(const std::string& s) { if (err.empty()) err = s; return false; }
  bool CheckIt(It* i, std::set<std::pair<int, int>>::const_iterator e, const std::string& what) {
    std::string k = "!", v = "!";
    const bool r = i->Get(&k, &v);
    if (r != (e != m.end())) return Bad(what + (r ? ": a pair appears at the end: " + Show(P(k, v)) : ": there is no pair and not " + Show(Pair(*e))));
    if (!r) return true;
    if (P(k, v) != Pair(*e)) return Bad(what + ": the pair is " + Show(P(k, v)) + " and not " + Show(Pair(*e)));
    k = v = "!";
    if (!i->Get(&k, nullptr) || !i->Get(nullptr, &v) || !i->Get(nullptr, nullptr) || P(k, v) != Pair(*e)) return Bad(what + ": the key or the value alone is wrong");
    return true;
  }
  bool CheckPos(const std::string& what) {
    if (pos == 0) return true;
    const bool r = CheckIt(it.get(), pos < 0 ? m.end() : pos == 1 ? m.find(at) : m.lower_bound(at), what + ": the iterator");
    if (pos == 2) Set(m.lower_bound(at));  // Get moves it there
    return r;
  }
  bool CheckAll(const std::string& what) {
    if (!err.empty()) return false;
    if (x->Count() != (long)m.size()) return Bad(what + ": Count gives " + std::to_string(x->Count()) + " and not " + std::to_string(m.size()));
    for (int k = 0; k < (int)c.keys.size(); k++) {
      V all;
      for (int v = 0; v < (int)c.values.size(); v++) {
        const bool in = m.count({k, v});
        if (in) all.push_back(c.values[v]);
        if (x->Check(Pair({k, v})) != in) return Bad(what + ": Check of " + Show(Pair({k, v})) + " gives " + (in ? "false" : "true"));
      }
      for (size_t max = 0; max < 4; max++) {
        V want = all;
        if (max && want.size() > max) want.resize(max);
        const V got = x->Values(c.keys[k], max);
        if (got != want) return Bad(what + ": GetValues of " + Show(c.keys[k]) + " gives " + std::to_string(got.size()) + " values and not the " + std::to_string(want.size()) + " right ones");
      }
    }
    return true;
  }
  bool Walks(const std::string& what) {
    if (!err.empty()) return false;
    auto i = x->Iter();
    i->First();
    for (auto e = m.begin();; ++e) { if (!CheckIt(i.get(), e, what + ": forward")) return false; if (e == m.end()) break; i->Next(); }
    i->Last();
    auto e = m.end();
    while (true) {
      if (e == m.begin()) { if (!CheckIt(i.get(), m.end(), what + ": backward")) return false; break; }
      --e;
      if (!CheckIt(i.get(), e, what + ": backward")) return false;
      i->Previous();
    }
    for (int k = 0; k < (int)c.keys.size(); k++)
      for (int v = 0; v < (int)c.values.size(); v++) {
        i->Jump(Pair({k, v}), false);
        if (!CheckIt(i.get(), m.lower_bound({k, v}), what + ": Jump to " + Show(Pair({k, v})))) return false;
      }
    return true;
  }
  void Do(const Op& o) {
    if (!err.empty()) return;
    const std::string what = Name(o);
    const std::pair<int, int> p{o.k, o.v};
    switch (o.kind) {
      case 'A':
        if (!x->Add(Pair(p))) Bad(what + ": adding fails");
        m.insert(p);
        break;
      case 'R': {
        const bool in = m.count(p);
        const int r = x->Remove(Pair(p));
        if (r != 2 && r != in) Bad(what + ": removing tells " + std::to_string(r));
        if (in) {
          auto nx = std::next(m.find(p));
          if (pos == 1 && at == p) { if (c.lazy) pos = 2; else if (nx == m.end()) pos = -1; else at = *nx; }
          m.erase(p);
        }
        break;
      }
      case 'C': if (!x->Clear()) Bad("Clear fails"); m.clear(); pos = -1; break;
      case 'B': if (!x->Rebuild()) Bad("Rebuild fails"); if (c.file) pos = pos == -1 ? -1 : 0; break;
      case 'S': if (!x->Sync(false)) Bad("Synchronize fails"); break;
      case 'H': if (!x->Sync(true)) Bad("Synchronize(hard) fails"); break;
      case 'O': case 'o':
        if (!c.file) break;
        it.reset();
        if (o.kind == 'o') {
          if (!x->Reopen(false)) { Bad("opening to read fails"); break; }
          if (!CheckAll("opened to read") || !Walks("opened to read")) break;
          const P q = Pair({0, 0});
          if (c.name != "poly baby") // memory may be updated
          if (x->Add(q) || x->Remove(q) >= 0 || x->Clear()) Bad("an update of a read-only index succeeds");
        }
        if (!x->Reopen(true)) Bad("opening again fails");
        it = x->Iter();
        pos = -1;
        break;
      case 'f': it->First(); Set(m.begin()); break;
      case 'l': it->Last(); Set(m.empty() ? m.end() : std::prev(m.end())); break;
      case 'J': it->Jump(Pair(p), false); Set(m.lower_bound(p)); break;
      case 'V': it->Jump(P(c.keys[o.k], ""), true); Set(m.lower_bound({o.k, Zero()})); break;
      case 'n': if (pos == 2) pos = 0; if (pos == 1) { it->Next(); Set(std::next(m.find(at))); } else if (pos == -1) it->Next(); break;
      case 'p':
        if (pos == 2) pos = 0;
        if (pos == 1) { it->Previous(); auto f = m.find(at); Set(f == m.begin() ? m.end() : std::prev(f)); }
        break;
    }
    if (!err.empty()) return;
    CheckPos(what);
    CheckAll(what);
  }
  // The rank of the default value.
  int Zero() const { for (int v = 0; v < (int)c.values.size(); v++) if (c.values[v].empty() || c.values[v] == "0") return v; return 0; }
  void Set(std::set<std::pair<int, int>>::const_iterator e) { if (e == m.end()) pos = -1; else { pos = 1; at = *e; } }
};

static std::string Big(int64_t v) { std::string s; for (int i = 7; i >= 0; i--) s += (char)((uint64_t)v >> (8 * i)); return s; }
static std::string Flt(double d) { uint64_t u; memcpy(&u, &d, 8); return Big(u); }

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const auto& args = mc::args();
  const bool th = Thorough();
  const double deadline = Now() + args.time;
  const V lex = {"", std::string("\0", 1), "a", "ab", "b", "\xff"}, vals = {"", std::string("\0z", 2), "a", "\x80"};
  TreeDBM::TuningParameters plain, tiny;
  tiny.max_page_size = 1;
  tiny.max_branches = 2;
  tiny.max_cached_pages = 1;
  tiny.num_buckets = 3;
  tiny.align_pow = 0;
  auto with = [](TreeDBM::TuningParameters t, KeyComparator k) { t.key_comparator = k; return t; };
  auto file = [](TreeDBM::TuningParameters t, int cls = 0) {
    return [=](const std::string& dir) -> Index* {
      FileIndex* i = cls == 1 ? new FileIndex(std::make_unique<StdFile>()) : cls == 2 ? new FileIndex(std::make_unique<PositionalAtomicFile>()) : new FileIndex();
      return new FileX<FileIndex>(i, [=](FileIndex* x, bool w) { return x->Open(dir + "/index.tkt", w, File::OPEN_DEFAULT, t); });
    };
  };
  auto poly = [](const std::string& name, std::map<std::string, std::string> ps) {
    return [=](const std::string& dir) -> Index* { return new FileX<PolyIndex>(new PolyIndex(), [=](PolyIndex* x, bool w) { return x->Open(name.empty() ? "" : dir + "/" + name, w, File::OPEN_DEFAULT, ps); }); };
  };
  auto mem = [](KeyComparator k = nullptr) { return [=](const std::string&) -> Index* { return new MemX<MemIndex>(k ? new MemIndex(k) : new MemIndex()); }; };
  const V dec = {"-10", "-2", "0", "5", "10", "+99"}, hex = {"0", "9", "0xA", "1f", "0XFF", "100"}, real = {"-2.5", "-1", "0", "0.25", "1e1", "1000.5"}, cas = {"A", "aB", "abC", "B", "ba", "C"};
  const V sbe = {Big(INT64_MIN), Big(-256), Big(-1), Big(0), Big(1), Big(256)}, fbe = {Flt(-1e10), Flt(-1.5), Flt(0), Flt(0.5), Flt(2), Flt(INFINITY)};
  const V nums = {"-7", "-1", "0", "1", "2", "30"}, nvals = {"-5", "-1", "0", "3"}, rvals = {"3", "0", "-1", "-5"};
  typedef StdIndex<std::string, std::string> StrStd;
  std::vector<Cfg> cfgs = {
      {"mem", true, false, lex, vals, mem()}, {"std", false, false, lex, vals, [](const std::string&) -> Index* { return new MemX<StrStd>(new StrStd()); }},
      {"stdstr", false, false, lex, vals, [](const std::string&) -> Index* { return new MemX<StdIndexStr>(new StdIndexStr()); }},
      {"std int", false, false, nums, nvals, [](const std::string&) -> Index* { return new NumX<StdIndex<int, int>>(); }},
      {"std desc", false, false, nums, rvals, [](const std::string&) -> Index* { return new NumX<StdIndex<int, int, Desc>>(); }},
      {"file", true, true, lex, vals, file(plain)}, {"file tiny", true, true, lex, vals, file(tiny)}, {"file std", true, true, lex, vals, file(tiny, 1)}, {"file pos", true, true, lex, vals, file(tiny, 2)},
      {"poly tree", true, true, lex, vals, poly("index.tkt", {})}, {"poly name", true, true, lex, vals, poly("index", {{"dbm", "tree"}, {"max_branches", "2"}, {"max_page_size", "1"}})},
      {"poly mem", true, false, lex, vals, poly("", {})}, {"poly baby", true, true, lex, vals, poly("x.tkmb", {})}};
  const size_t main_cfgs = cfgs.size();
  struct { const char* n; KeyComparator k; const V* keys; } cmps[] = {
      {"PairLexicalCaseKeyComparator", PairLexicalCaseKeyComparator, &cas}, {"PairDecimalKeyComparator", PairDecimalKeyComparator, &dec}, {"PairHexadecimalKeyComparator", PairHexadecimalKeyComparator, &hex},
      {"PairRealNumberKeyComparator", PairRealNumberKeyComparator, &real}, {"PairSignedBigEndianKeyComparator", PairSignedBigEndianKeyComparator, &sbe}, {"PairFloatBigEndianKeyComparator", PairFloatBigEndianKeyComparator, &fbe}};
  for (auto& k : cmps) {
    const std::string n = k.n;
    cfgs.push_back({"mem " + n, true, false, *k.keys, vals, mem(k.k)});
    cfgs.push_back({"file " + n, true, true, *k.keys, vals, file(with(tiny, k.k))});
    cfgs.push_back({"poly " + n, true, true, *k.keys, vals, poly("index.tkt", {{"key_comparator", n}})});
  }
  long index = 0, cases = 0, steps = 0;
  bool expired = false;
  auto gen = [&](const Cfg& c, const Ops& pre, const std::vector<const Ops*>& levels) {
    Ops ops;
    std::function<void()> rec = [&] {
      if (ops.size() < levels.size()) {
        for (auto& o : *levels[ops.size()]) { if (!c.file && strchr("BSHOo", o.kind)) continue; ops.push_back(o); rec(); ops.pop_back(); }
        return;
      }
      std::string id = c.name + "/";
      for (auto& o : pre) id += Name(o) + ".";
      id += ":";
      for (auto& o : ops) id += Name(o) + ".";
      if (!args.only.empty() ? args.only != id : index++ % args.num_workers != args.worker) return;
      if (expired) { mc::Stat("incomplete", 1); return; }
      if (args.only.empty() && (cases & 15) == 0 && Now() > deadline) { expired = true; mc::Note("time ran out in " + id); return; }
      mc::SetContext(id);
      alarm(20);
      const std::string dir = Scratch();
      CleanDir(dir);
      {
        Case k(c, dir);
        for (auto& o : pre) k.Do(o);
        for (auto& o : ops) k.Do(o);
        k.Walks("the end");
        k.it.reset();
        if (k.err.empty() && c.file && !k.x->Reopen(false)) k.Bad("opening at the end fails");
        if (c.file) { k.CheckAll("closed and opened"); k.Walks("closed and opened"); }
        if (k.err.empty() && !k.x->Close()) k.Bad("Close fails");
        if (!k.err.empty()) { if (getenv("VP_ALL")) printf("ALL %s %s\n", id.c_str(), k.err.c_str()); else mc::Violation(id, k.err); }
      }
      alarm(0);
      cases++;
      steps += pre.size() + ops.size();
    };
    rec();
  };
  Ops upd, few, itr, mix;
  for (int k : {0, 1, 2, 3, 5}) for (int v : {0, 1, 3}) { upd.push_back({'A', k, v}); upd.push_back({'R', k, v}); }
  for (char ch : {'C', 'B', 'S', 'H', 'O', 'o'}) upd.push_back({ch});
  for (int k : {0, 2, 3}) for (int v : {0, 2}) { few.push_back({'A', k, v}); few.push_back({'R', k, v}); }
  for (char ch : {'C', 'B', 'O'}) few.push_back({ch});
  for (int k : {0, 2, 4, 5}) for (int v : {0, 1, 3}) itr.push_back({'J', k, v});
  for (int k = 0; k < 6; k++) itr.push_back({'V', k});
  for (char ch : {'f', 'l'}) itr.push_back({ch});
  const Ops mov = {{'n'}, {'p'}};
  mix = mov;
  for (auto& o : Ops{{'A', 2, 1}, {'A', 2, 3}, {'A', 0, 0}, {'A', 5, 3}, {'R', 2, 0}, {'R', 2, 2}, {'R', 3, 2}, {'R', 0, 0}, {'R', 5, 3}, {'C'}, {'B'}, {'S'}, {'J', 2, 1}, {'l'}, {'f'}}) mix.push_back(o);
  const Ops three = {{'A', 2, 0}, {'A', 2, 2}, {'A', 3, 2}};
  Ops eight, full;
  for (int k : {5, 2, 0, 3}) for (int v : {2, 0}) eight.push_back({'A', k, v});
  for (int v = 3; v >= 0; v--) for (int k : {3, 0, 5, 1, 4, 2}) full.push_back({'A', k, v});
  const std::vector<Ops> pres = {{}, three, eight, full};
  for (auto& c : cfgs) for (auto& p : pres) { gen(c, p, {}); gen(c, p, {&upd}); gen(c, p, {&itr}); gen(c, p, {&itr, &mix}); }
  for (size_t i = 0; i < cfgs.size(); i++) for (auto& p : {pres[0], pres[1], pres[2]}) { gen(cfgs[i], p, {&upd, &upd}); if (i < main_cfgs) gen(cfgs[i], p, {&itr, &mix, &mix}); }
  for (size_t i = 0; i < main_cfgs; i++) for (int j : {0, 2}) gen(cfgs[i], pres[j], {&few, &few, &few});
  for (size_t i = 0; i < main_cfgs; i++) gen(cfgs[i], pres[1], {&itr, &mix, &mix, &mix});
  if (th) for (size_t i = 0; i < main_cfgs; i++) for (int j : {0, 2}) gen(cfgs[i], pres[j], {&few, &few, &few, &few});
  mc::Stat("states", cases);
  mc::Stat("transitions", steps);
  mc::Stat("traces", cases);
  mc::FinishReport();
}
