// The file classes used by several threads, under every schedule up to a preemption bound.
#include "lin.h"
#include <memory>
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_std.h"
#include "tkrzw_file_util.h"
using namespace tkrzw;
using mc::Fail;

// Kinds: R reads, W writes, A appends, E expands, S and H synchronize, G asks the size, T and F truncate (really, fakely).
struct FOp { char k; int64_t off = 0; std::string d; int64_t n = 0; };
struct Ev { FOp op; long inv = 0, res = 0; std::string r; int thread = 0; };
struct Scen { std::string name; int64_t size; std::vector<std::vector<FOp>> th; int bound; };

NOSAN static std::string Text(const FOp& o) {
  std::string s(1, o.k);
  if (o.k == 'R') s += std::to_string(o.off) + "+" + std::to_string(o.n);
  if (o.k == 'W') s += std::to_string(o.off) + "+" + std::to_string(o.d.size());
  if (o.k == 'A') s += std::to_string(o.d.size());
  if (strchr("ETF", o.k)) s += std::to_string(o.n);
  return s;
}
NOSAN static std::string Initial(int64_t n) { std::string s; for (int64_t i = 0; i < n; i++) s += char('a' + (i * 7 + i / 26) % 26); return s; }
static std::string Do(File* f, const FOp& o) {
  Status s;
  switch (o.k) {
    case 'R': { std::string b(o.n, '?'); s = f->Read(o.off, b.data(), o.n); return s == Status::SUCCESS ? "=" + b : ToString(s).substr(0, 10); }
    case 'W': s = f->Write(o.off, o.d.data(), o.d.size()); break;
    case 'A': { int64_t p = -1; s = f->Append(o.d.data(), o.d.size(), &p); return s == Status::SUCCESS ? std::to_string(p) : ToString(s); }
    case 'E': { int64_t p = -1; s = f->Expand(o.n, &p); return s == Status::SUCCESS ? std::to_string(p) : ToString(s); }
    case 'S': s = f->Synchronize(false); break;
    case 'H': s = f->Synchronize(true); break;
    case 'G': { int64_t p = -1; s = f->GetSize(&p); return s == Status::SUCCESS ? std::to_string(p) : ToString(s); }
    case 'T': s = f->Truncate(o.n); break;
    case 'F': s = f->TruncateFakely(o.n); break;
  }
  return s == Status::SUCCESS ? "ok" : ToString(s);
}
NOSAN static bool Same(const char* m, const char* f, size_t n) {
  for (size_t i = 0; i < n; i++) if (m[i] != '?' && m[i] != f[i]) return false;
  return true;
}
// A file as it should be; '?' stands for a byte whose value is not specified.
static bool Apply(std::string* m, const FOp& o, const std::string& r) {
  const int64_t size = m->size();
  switch (o.k) {
    case 'R':
      if (o.off + o.n > size) return r == "INFEASIBLE";
      if (r.size() != (size_t)o.n + 1 || r[0] != '=') return false;
      return Same(m->data() + o.off, r.data() + 1, o.n);
    case 'W':
      if (r != "ok") return false;
      if (o.off > size) m->append(o.off - size, '?');
      if ((int64_t)m->size() < o.off + (int64_t)o.d.size()) m->resize(o.off + o.d.size());
      m->replace(o.off, o.d.size(), o.d);
      return true;
    case 'A': if (r != std::to_string(size)) return false; m->append(o.d); return true;
    case 'E': if (r != std::to_string(size)) return false; m->append(o.n, '?'); return true;
    case 'G': return r == std::to_string(size);
    case 'T': case 'F': if (r != "ok") return false; if (o.n < size) m->resize(o.n); else m->append(o.n - size, '?'); return true;
    default: return r == "ok";
  }
}
static bool Fits(const std::string& m, const std::string& f) { return m.size() == f.size() && Same(m.data(), f.data(), m.size()); }
// Whether some order of the operations that respects the real time explains the results and the final content.
static bool Lin(const std::vector<Ev>& evs, unsigned done, const std::string& m, const std::string& final) {
  if (done == (1u << evs.size()) - 1) return Fits(m, final);
  for (size_t i = 0; i < evs.size(); i++) {
    if (done >> i & 1) continue;
    bool first = true;
    for (size_t j = 0; j < evs.size(); j++) if (j != i && !(done >> j & 1) && evs[j].res < evs[i].inv) first = false;
    if (!first) continue;
    std::string n = m;
    if (!Apply(&n, evs[i].op, evs[i].r)) continue;
    if (Lin(evs, done | 1u << i, n, final)) return true;
  }
  return false;
}
static std::string Brief(const std::vector<Ev>& evs) {
  std::string s;
  for (auto& e : evs) s += "t" + std::to_string(e.thread) + ":" + Text(e.op) + "->" + e.r.substr(0, 20) + " ";
  return s;
}
// The parallel classes: bytes and ranges.
static std::string Weak(const std::vector<Ev>& evs, const std::string& init, const std::string& final) {
  bool cut = false, grow = false;
  int64_t total = init.size();
  for (auto& e : evs) { if (strchr("TF", e.op.k)) cut = true; if (e.op.k == 'W' && e.op.off + e.op.d.size() > init.size()) grow = true; }
  std::vector<std::pair<int64_t, int64_t>> ranges;
  std::vector<std::pair<int64_t, std::string>> writes;
  for (auto& e : evs) {
    if (strchr("AE", e.op.k)) {
      if (e.r.empty() || !isdigit(e.r[0])) return Text(e.op) + " fails: " + e.r;
      const int64_t p = atoll(e.r.c_str()), n = e.op.k == 'A' ? e.op.d.size() : e.op.n;
      if (!cut && p < (int64_t)init.size()) return Text(e.op) + " gives a range of the initial file";
      if (!cut) for (auto& r : ranges) if (p < r.second && r.first < p + n) return "ranges given by appending or expanding overlap";
      ranges.emplace_back(p, p + n);
      total += n;
      if (e.op.k == 'A') writes.emplace_back(p, e.op.d);
    } else if (e.op.k == 'W') {
      if (e.r != "ok") return Text(e.op) + " fails: " + e.r;
      writes.emplace_back(e.op.off, e.op.d);
    } else if (e.op.k == 'G') {
      if (e.r.empty() || !isdigit(e.r[0])) return "GetSize fails";
      if (!cut && atoll(e.r.c_str()) < (int64_t)init.size()) return "GetSize gives less than ever";
    } else if (e.op.k != 'R' && e.r != "ok") return Text(e.op) + " fails: " + e.r;
  }
  if (!cut && !grow && (int64_t)final.size() != total) return "the final size is " + std::to_string(final.size()) + " instead of " + std::to_string(total);
  // What each byte may be; where the file is as it was and nobody wrote it is quickly seen.
  std::vector<std::pair<int64_t, int64_t>> spans;
  int64_t at = 0;
  std::sort(writes.begin(), writes.end());
  for (auto& w : writes) { if (w.first > at) spans.emplace_back(at, w.first); at = std::max<int64_t>(at, w.first + w.second.size()); }
  spans.emplace_back(at, 1 << 30);
  auto may = [&](int64_t at, char c, bool last) {
    bool written = false;
    for (auto& w : writes) if (at >= w.first && at < w.first + (int64_t)w.second.size()) { if (w.second[at - w.first] == c) return true; written = true; }
    if (last && written && !cut) return false;
    return at < (int64_t)init.size() ? init[at] == c || (cut && c == 0) : true;
  };
  for (auto& e : evs) if (e.op.k == 'R') {
    if (e.r[0] != '=') { if (!cut && e.op.off + e.op.n <= (int64_t)init.size()) return Text(e.op) + " fails: " + e.r; continue; }
    for (int64_t i = 0; i < e.op.n; i++) if (!may(e.op.off + i, e.r[i + 1], false)) return Text(e.op) + " gives a byte that nobody wrote";
  }
  for (auto& sp : spans) {
    const int64_t e = std::min<int64_t>(std::min(sp.second, (int64_t)init.size()), final.size());
    if (e > sp.first && memcmp(init.data() + sp.first, final.data() + sp.first, e - sp.first) != 0 && !cut) return "the final file has changed where nobody wrote";
  }
  for (auto& w : writes) for (int64_t i = w.first; i < std::min<int64_t>(w.first + w.second.size(), final.size()); i++) if (!may(i, final[i], true)) return "the final file has another byte at " + std::to_string(i);
  // A thread finds its own writes.
  for (size_t i = 0; i < evs.size() && !cut; i++) if (evs[i].op.k == 'R') for (size_t j = 0; j < evs.size(); j++) {
    const Ev &r = evs[i], &w = evs[j];
    if (w.op.k != 'W' || w.res > r.inv) continue;
    bool other = false;
    for (size_t k = 0; k < evs.size(); k++) if (k != j && evs[k].op.k == 'W' && evs[k].op.off < w.op.off + (int64_t)w.op.d.size() && w.op.off < evs[k].op.off + (int64_t)evs[k].op.d.size()) other = true;
    if (other || r.r[0] != '=') continue;
    for (int64_t x = 0; x < r.op.n; x++) { const int64_t at = r.op.off + x; if (at >= w.op.off && at < w.op.off + (int64_t)w.op.d.size() && r.r[x + 1] != w.op.d[at - w.op.off]) return Text(r.op) + " misses what was written before"; }
  }
  return "";
}

static std::unique_ptr<File> Make(int cls) {
  std::unique_ptr<File> f;
  if (cls == 4) return std::make_unique<StdFile>();
  if (cls == 0) f = std::make_unique<MemoryMapParallelFile>();
  if (cls == 1) f = std::make_unique<PositionalParallelFile>();
  if (cls == 2) f = std::make_unique<MemoryMapAtomicFile>();
  if (cls == 3) f = std::make_unique<PositionalAtomicFile>();
  f->SetAllocationStrategy(1, 1.0);
  return f;
}
int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  mc::FsScope(Scratch());
  LinSuite suite;
  const std::string dir = Scratch() + "/fc";
  ::mkdir(dir.c_str(), 0755);
  const int64_t P = 4090;  // near the end of the first page
  auto R = [](int64_t off, int64_t n) { return FOp{'R', off, "", n}; };
  auto W = [](int64_t off, const std::string& d) { return FOp{'W', off, d}; };
  auto A = [](const std::string& d) { return FOp{'A', 0, d}; };
  auto N = [](char k, int64_t n = 0) { return FOp{k, 0, "", n}; };
  const std::string X(12, 'X'), Y(9, 'Y'), Z(4200, 'Z');
  std::vector<Scen> scens = {
    {"append-append", P, {{A(X), A("12")}, {A(Y), A("34")}}, 3},
    {"append-append-append", P, {{A(X)}, {A(Y)}, {A("345")}}, 2},
    {"append-long", P, {{A(Z)}, {A(Y), R(10, 5)}}, 3},
    {"append-read", P, {{A(X), A(Z)}, {R(P - 8, 8), R(0, 8)}}, 3},
    {"append-read-read", P, {{A(Z)}, {R(P - 8, 8)}, {R(0, 8), N('G')}}, 2},
    {"append-size", P, {{A(X), A(Y)}, {N('G'), R(P, 5)}}, 3},
    {"append-size-read", P, {{A(X)}, {N('G'), R(P, 12), N('G')}}, 3},
    {"append-write", P, {{A(X), A(Y)}, {W(100, "wwwww"), R(98, 9)}}, 3},
    {"append-expand", P, {{A(X), A("12")}, {N('E', 20), N('E', 3)}}, 3},
    {"expand-expand", P, {{N('E', 10), N('E', 5000)}, {N('E', 7), N('E', 1)}}, 3},
    {"expand-write", P, {{N('E', 5000), W(50, "mine")}, {W(60, "yours"), R(50, 4)}}, 3},
    {"write-write", P, {{W(10, "aaaa"), W(200, "cccc")}, {W(14, "bbbb"), W(204, "dddd")}}, 2},
    {"write-write-overlap", P, {{W(10, "aaaaaa"), R(8, 14)}, {W(13, "bbbbbb"), R(8, 14)}}, 3},
    {"write-beyond", P, {{W(P - 2, "abcdefgh"), R(P - 2, 8)}, {W(P + 10, "ijkl"), R(0, 4)}}, 3},
    {"write-far", P, {{W(8200, "far"), R(8200, 3)}, {A(Y), R(5, 5)}}, 3},
    {"write-far-far", P, {{W(8200, "far")}, {W(20000, "farther")}, {R(P - 4, 4)}}, 2},
    {"write-read-read", P, {{W(10, "aaaaaa"), W(10, "bbbbbb")}, {R(9, 8)}, {R(12, 3)}}, 2},
    {"sync-append", P, {{N('S'), A(X)}, {A(Y), N('G')}}, 3},
    {"sync-append-long", P, {{N('S')}, {A(Z), R(P, 10)}}, 3},
    {"hard-append", P, {{N('H'), R(3, 5)}, {A(Z), A(Y)}}, 2},
    {"sync-sync", P, {{N('S'), A(X)}, {N('H'), W(7, "seven")}}, 2},
    {"sync-write", P, {{N('S'), N('G')}, {W(P + 3, "later"), W(8200, "far")}}, 2},
    {"sync-expand-read", P, {{N('S')}, {N('E', 8200)}, {R(1, 9), N('G')}}, 2},
    {"truncate-read", 8200, {{N('T', 100), A(X)}, {R(0, 50), R(8100, 50)}}, 3},
    {"truncate-append", 8200, {{N('T', 100)}, {A(X), A(Y)}}, 3},
    {"truncate-write", 8200, {{N('T', 10000), R(5, 5)}, {W(20, "twenty"), R(20, 6)}}, 3},
    {"truncate-sync", 8200, {{N('T', 100), N('G')}, {N('S'), R(0, 9)}}, 2},
    {"truncate-expand-read", 8200, {{N('T', 50)}, {N('E', 30), N('E', 8200)}, {R(10, 9), R(8100, 9)}}, 2},
    {"fake-read", 8200, {{N('F', 100), A(X)}, {R(0, 50), R(50, 50)}}, 3},
    {"fake-append", 8200, {{N('F', 100), R(90, 10)}, {A(X), A(Y)}}, 2},
  };
  const char* const names[] = {"mmap-para", "pos-para", "mmap-atom", "pos-atom", "std"};
  for (auto& sc : scens) for (int cls : {0, 2, 1, 3, 4}) {
    const bool atomic = cls >= 2;
    // Synchronizing and truncating are documented as not safe for threads in the parallel classes.
    bool exclusive = false;
    for (auto& t : sc.th) for (auto& op : t) exclusive |= strchr("SHTF", op.k) != nullptr;
    if (!atomic && exclusive) continue;
    const int bound = (atomic ? sc.bound : 2) + (Thorough() ? 1 : 0);
    const std::string n = std::string(names[cls]) + "/" + sc.name;
    const std::string init = Initial(sc.size);
    mc::ExploreOptions o;
    suite.AddRun([=](double share) { mc::RunScenario(n, bound, [=] {
      mc::NoSched(true);
      CleanDir(dir);
      const std::string path = dir + "/f";
      auto f = Make(cls);
      Status s = f->Open(path, true, File::OPEN_TRUNCATE);
      s |= f->Append(init.data(), init.size());
      if (s != Status::SUCCESS) Fail("opening: " + ToString(s));
      std::vector<Ev> evs;
      std::vector<std::pair<size_t, size_t>> of;
      for (size_t t = 0; t < sc.th.size(); t++) { of.emplace_back(evs.size(), sc.th[t].size()); for (auto& op : sc.th[t]) { Ev e; e.op = op; e.thread = t; evs.push_back(e); } }
      std::vector<std::function<void()>> fs;
      for (size_t t = 0; t < sc.th.size(); t++) fs.push_back([&, t] {
        for (size_t i = of[t].first; i < of[t].first + of[t].second; i++) {
          if (i > of[t].first) mc::Point();
          evs[i].inv = mc::Now();
          evs[i].r = Do(f.get(), evs[i].op);
          evs[i].res = mc::Now();
        }
      });
      mc::NoSched(false);
      Par(fs);
      mc::NoSched(true);
      int64_t size = -1;
      f->GetSize(&size);
      std::string final(std::max<int64_t>(size, 0), 0);
      s = f->Read(0, final.data(), final.size());
      if (size < 0 || s != Status::SUCCESS) Fail("reading at the end: " + ToString(s) + " " + Brief(evs));
      if (atomic) { if (!Lin(evs, 0, init, final)) Fail("no order explains " + Brief(evs) + "and the final " + std::to_string(size) + " bytes"); }
      else { const std::string e = Weak(evs, init, final); if (!e.empty()) Fail(e + ": " + Brief(evs)); }
      s = f->Close();
      if (s != Status::SUCCESS) Fail("closing: " + ToString(s));
      s = f->Open(path, false);
      std::string again(std::max<int64_t>(f->GetSizeSimple(), 0), 0);
      s |= f->Read(0, again.data(), again.size());
      s |= f->Close();
      if (s != Status::SUCCESS || again != final) Fail("the file differs when opened again: " + ToString(s) + " " + std::to_string(again.size()) + " bytes instead of " + std::to_string(final.size()) + " " + Brief(evs));
      std::string out;
      for (auto& e : evs) out += e.r.substr(0, 12) + " ";
      mc::Outcome(out);
      mc::NoSched(false);
    }, share, o); });
  }
  suite.Run();
  mc::FinishReport();
}
