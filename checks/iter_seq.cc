// Iterators and updates interleaved in one thread: every sequence up to a depth against a model of the position.
#include "iter_case.h"
#include "seqstub.h"
using namespace tkrzw;
using namespace itc;
static double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const bool th = Thorough();
  const double t0 = Now();
  TreeDBM::TuningParameters rev = TinyTree();
  rev.key_comparator = [](std::string_view a, std::string_view b) { return LexicalKeyComparator(b, a); };
  const KeyComparator revc = [](std::string_view a, std::string_view b) { return LexicalKeyComparator(b, a); };
  std::vector<Cfg> cfgs = {
      {"tree", LAZY, TreeMaker(TinyTree())}, {"baby", LAZY, BabyMaker()}, {"stdtree", EAGER, StdTreeMaker()}, {"skip", SKIP, SkipMaker(TinySkip())},
      {"hash", UNORD, HashMaker(TinyHash(false, 2))}, {"tiny", UNORD, TinyMaker(2)}, {"cache", UNORD, CacheMaker()}, {"stdhash", UNORD, StdHashMaker(), false, true},
      {"tree3", LAZY, TreeMaker(TinyTree(40, 3), 1)}, {"hash-append", UNORD, HashMaker(TinyHash(true, 1), 1)},
      {"baby-rev", LAZY, MemMaker(true, [=](std::unique_ptr<File> f) { return new BabyDBM(std::move(f), revc); }), true},
  };
  (void)rev;
  const std::vector<Op> pos = {{'f'}, {'l'}, {'j', "c"}, {'j', "e"}, {'L', "c"}, {'L', "e"}, {'L', "c", true}, {'U', "c"}, {'U', "e"}, {'U', "d", true}, {'j', "z"}, {'L', "a"}, {'L', "z"}, {'U', "z"}, {'j', ""}};
  const std::vector<Op> mov = {{'n'}, {'p'}, {'g'}, {'t'}, {'s'}, {'r'}, {'w'}, {'x'}};
  const std::vector<Op> upd = {{'S', "e"}, {'S', "c"}, {'S', "a"}, {'S', "g"}, {'R', "b"}, {'R', "c"}, {'R', "d"}, {'R', "f"}, {'C'}, {'B'}, {'Y'}, {'O'}, {'N'}, {'D'}};
  const std::vector<Op> upd2 = {{'S', "e"}, {'S', "c"}, {'R', "b"}, {'R', "c"}, {'R', "d"}, {'C'}, {'B'}};
  std::vector<Op> all = pos, rest = mov, small = mov;
  all.insert(all.end(), mov.begin(), mov.end());
  all.insert(all.end(), upd.begin(), upd.end());
  rest.insert(rest.end(), upd.begin(), upd.end());
  small.erase(small.begin() + 3);
  small.insert(small.end(), upd2.begin(), upd2.end());
  const std::vector<Op> pos2 = {{'f'}, {'l'}, {'j', "c"}, {'j', "e"}, {'L', "d"}, {'U', "b"}};
  std::vector<Op> posu;
  long n = 0, steps = 0, index = 0;
  bool stop = false;
  const std::string dir = Scratch();
  auto run = [&](const Cfg& c, const std::string& init, const std::vector<Op>& ops) {
    if (c.kind == UNORD) {
      // Backward moves of unordered databases are only tried alone.
      int ord = 0;
      for (auto& o : ops) ord += strchr("lpLU", o.kind) != nullptr;
      if (ord && ops.size() > 1) return;
    }
    for (int tail = 0; tail < 3; tail++) {
      std::string id = c.name + "/" + init + ":";
      for (auto& o : ops) id += Name(o) + ".";
      id += "t" + std::to_string(tail);
      const std::string& only = mc::args().only;
      if (!only.empty() ? only != id : index++ % mc::args().num_workers != mc::args().worker) continue;
      if (stop) { mc::Stat("incomplete", 1); continue; }
      if (only.empty() && (n & 7) == 0 && Now() - t0 > mc::args().time) { stop = true; mc::Note("time ran out in " + id); continue; }
      mc::SetContext(id);
      alarm(20);
      CleanDir(dir);
      {
        Case k(id, c);
        std::vector<std::string> keys;
        for (char ch : init) keys.push_back(std::string(1, ch));
        k.Load(keys);
        for (auto& o : ops) k.Do(o);
        if (k.ok()) k.Tail(tail);
        if (!k.ok()) mc::Violation(id, k.error());
      }
      alarm(0);
      n++;
      steps += ops.size();
    }
  };
  auto gen = [&](const Cfg& c, const std::string& init, const std::vector<const std::vector<Op>*>& levels) {
    std::vector<Op> pre;
    std::function<void()> rec = [&] {
      if (pre.size() == levels.size()) { run(c, init, pre); return; }
      for (auto& o : *levels[pre.size()]) { pre.push_back(o); rec(); pre.pop_back(); }
    };
    rec();
  };
  for (auto& c : cfgs) for (auto init : {"bcdf", "", "c"}) { gen(c, init, {}); gen(c, init, {&all}); gen(c, init, {&all, &all}); }
  for (auto& c : cfgs) gen(c, "bcdf", {&pos, &rest, &rest});
  for (auto& c : cfgs) gen(c, "bcdf", {&pos2, &small, &small, &small});
  for (auto& c : cfgs) gen(c, "abcdefgh", {&pos2, &upd2, &mov, &upd2, &mov});
  if (th) {
    for (auto& c : cfgs) gen(c, "bcdf", {&pos2, &small, &small, &small, &small});
    for (auto& c : cfgs) gen(c, "bcdf", {&pos, &rest, &rest, &rest});
    for (auto& c : cfgs) gen(c, "abcdefgh", {&pos2, &small, &small, &small, &small});
  }
  mc::Stat("states", n);
  mc::Stat("transitions", steps);
  mc::Stat("traces", n);
  mc::FinishReport();
}
