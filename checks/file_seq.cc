// Every sequence of operations on each file class must behave as a plain growable byte array.
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <sys/stat.h>
#include <unistd.h>
#include "conc.h"
#include "seqstub.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_poly.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_std.h"
using namespace tkrzw;
static double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

enum Cls { STD, MPARA, MATOM, PPARA, PATOM };
struct Cfg {
  std::string name;
  Cls cls;
  int64_t init = 1;
  double inc = 2.0;
  int64_t block = 0;
  int32_t access = 0;
  int64_t head = -1;
  std::string poly;
  bool disk = false;
  bool mmap() const { return cls == MPARA || cls == MATOM; }
  bool pos() const { return cls == PPARA || cls == PATOM; }
  int64_t bs() const { return pos() && block > 1 ? block : 1; }
};
struct Op { char kind; int64_t a = 0, b = 0; };
typedef std::vector<Op> Ops;
static std::string Name(const Op& o) { return std::string(1, o.kind) + std::to_string(o.a) + (strchr("WZY", o.kind) ? "," + std::to_string(o.b) : ""); }

class Case {
 public:
  Case(const Cfg& c, const std::string& dir) : c_(c), dir_(dir), path_(dir + "/file") {}
  ~Case() { if (f_ && f_->IsOpen()) f_->Close(); }
  std::string err;
  bool zeros = false;  // Truncate must show null codes even where something was cut off before
  bool Bad(const std::string& e) { if (err.empty()) err = e; return false; }
  bool Is(const Status& s, Status::Code want, const std::string& what) { return s == want ? true : Bad(what + " gives " + ToString(s)); }

  void MakeIt() {
    if (!c_.poly.empty()) f_ = std::make_unique<PolyFile>();
    else if (c_.cls == STD) f_ = std::make_unique<StdFile>();
    else if (c_.cls == MPARA) f_ = std::make_unique<MemoryMapParallelFile>();
    else if (c_.cls == MATOM) f_ = std::make_unique<MemoryMapAtomicFile>();
    else if (c_.cls == PPARA) f_ = std::make_unique<PositionalParallelFile>();
    else f_ = std::make_unique<PositionalAtomicFile>();
  }
  bool Open(bool writable, int32_t options) {
    Status s;
    if (auto* p = dynamic_cast<PolyFile*>(f_.get())) s = p->OpenAdvanced(path_, writable, options, {{"file", c_.poly}, {"block_size", std::to_string(c_.bs())}, {"head_buffer_size", std::to_string(std::max<int64_t>(0, c_.head))}, {"access_options", c_.access & PositionalFile::ACCESS_PADDING ? "padding:pagecache" : "pagecache"}});
    else {
      if (c_.cls != STD || true) Is(f_->SetAllocationStrategy(c_.init, c_.inc), Status::SUCCESS, "SetAllocationStrategy");
      auto* pos = dynamic_cast<PositionalFile*>(f_.get());
      if (pos && c_.block) Is(pos->SetAccessStrategy(c_.block, c_.access), Status::SUCCESS, "SetAccessStrategy");
      s = f_->Open(path_, writable, options);
      if (s == Status::SUCCESS && pos && c_.head >= 0) s |= pos->SetHeadBuffer(c_.head);
    }
    if (!f_->IsOpen()) Bad("IsOpen is false after opening");
    return Is(s, Status::SUCCESS, writable ? "opening" : "opening to read");
  }
  bool Start() { MakeIt(); return Open(true, File::OPEN_TRUNCATE) && Check("opening"); }

  void Resize(int64_t n, char unknown) { m_.resize(n, 0); u_.resize(n, unknown); }
  // Grows to n with zeros, except where something was cut off (see main for Truncate).
  void Grow(int64_t n) {
    const int64_t old = m_.size();
    if (n <= old) return;
    Resize(n, 0);
    for (int64_t i = old; i < std::min(n, fake_); i++) u_[i] = 1;
  }
  void Put(int64_t off, const std::string& d) {
    Grow(off + d.size());
    m_.replace(off, d.size(), d);
    std::fill(u_.begin() + off, u_.begin() + off + d.size(), 0);
  }
  std::string Data(int64_t n) { std::string s(n, 0); for (auto& ch : s) ch = 1 + (seed_++ * 7) % 251; seed_ += 3; return s; }
  bool Same(const std::string& got, int64_t off, const std::string& what) {
    for (size_t i = 0; i < got.size(); i++)
      if (!u_[off + i] && got[i] != m_[off + i]) return Bad(what + " has " + std::to_string((unsigned char)got[i]) + " and not " + std::to_string((unsigned char)m_[off + i]) + " at " + std::to_string(off + i) + " of " + std::to_string(m_.size()));
    return true;
  }
  bool Reads(int64_t off, int64_t len, const std::string& what) {
    const std::string w = what + ": Read(" + std::to_string(off) + ", " + std::to_string(len) + ")";
    std::string buf(len + 2, 'Z');
    const Status s = f_->Read(off, buf.data() + 1, len);
    if (off + len > (int64_t)m_.size()) return Is(s, Status::INFEASIBLE_ERROR, w);
    if (!Is(s, Status::SUCCESS, w)) return false;
    if (buf[0] != 'Z' || buf[len + 1] != 'Z') return Bad(w + " writes outside of the buffer");
    return Same(buf.substr(1, len), off, w);
  }
  bool Check(const std::string& what) {
    if (!err.empty()) return false;
    const int64_t n = m_.size();
    int64_t size = -1;
    if (!Is(f_->GetSize(&size), Status::SUCCESS, "GetSize")) return false;
    if (size != n) return Bad(what + ": the size is " + std::to_string(size) + " and not " + std::to_string(n));
    if (f_->GetPathSimple() != path_) return Bad(what + ": the path is " + f_->GetPathSimple());
    if (!Reads(0, n, what) || !Reads(0, n + 1, what) || !Reads(n, 0, what) || !Reads(n, 1, what) || !Reads(n + 1, 0, what) || !Reads(n + 5000, 7, what)) return false;
    for (int64_t off : {1, 7, 511, 512, 600, 4095, 4096, 4099})
      for (int64_t len : {1, 9, 512, 513, 3584})
        if (off + len <= n && !Reads(off, len, what)) return false;
    if (n > 2 && (!Reads(n - 1, 1, what) || !Reads(n - 2, 3, what))) return false;
    return true;
  }
  // The bytes on the disk.
  bool Physical(const std::string& what, bool exact) {
    std::ifstream in(path_, std::ios::binary);
    std::string d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    const int64_t n = m_.size(), want = exact ? n : (n + c_.bs() - 1) / c_.bs() * c_.bs();
    if ((int64_t)d.size() != want) return Bad(what + ": the file has " + std::to_string(d.size()) + " bytes and not " + std::to_string(want));
    return Same(d.substr(0, n), 0, what + ": the file");
  }
  void Padded() {
    const int64_t n = m_.size(), want = (n + c_.bs() - 1) / c_.bs() * c_.bs();
    if (c_.access & PositionalFile::ACCESS_PADDING) Grow(want);
  }
  bool Closing(const std::string& what) {
    if (!Is(f_->Close(), Status::SUCCESS, what + ": Close")) return false;
    if (f_->IsOpen()) return Bad(what + ": IsOpen is true after closing");
    char ch;
    int64_t n;
    if (f_->Read(0, &ch, 1) != Status::PRECONDITION_ERROR || f_->Write(0, "x", 1) != Status::PRECONDITION_ERROR || f_->GetSize(&n) != Status::PRECONDITION_ERROR || f_->Close() != Status::PRECONDITION_ERROR) return Bad(what + ": an operation on the closed file does not fail");
    Padded();
    fake_ = 0;
    return Physical(what, true);
  }
  void Do(const Op& o) {
    const std::string what = Name(o);
    const int64_t n = m_.size();
    switch (o.kind) {
      case 'W': { const std::string d = Data(o.b); if (Is(f_->Write(o.a, d.data(), d.size()), Status::SUCCESS, what)) Put(o.a, d); break; }
      case 'w': { const std::string d = Data(o.a); const int64_t off = std::max<int64_t>(0, n - o.a / 2); if (Is(f_->Write(off, d.data(), d.size()), Status::SUCCESS, what)) Put(off, d); break; }
      case 'A': {
        const std::string d = Data(o.a);
        int64_t off = -1;
        if (!Is(f_->Append(d.data(), d.size(), &off), Status::SUCCESS, what)) break;
        if (off != n) { Bad(what + " tells the offset " + std::to_string(off) + " and not " + std::to_string(n)); break; }
        Put(n, d);
        break;
      }
      case 'E': {
        int64_t off = -1;
        if (!Is(f_->Expand(o.a, &off), Status::SUCCESS, what)) break;
        if (off != n) { Bad(what + " tells the offset " + std::to_string(off) + " and not " + std::to_string(n)); break; }
        Grow(n + o.a);
        break;
      }
      case 'T':
        if (!Is(f_->Truncate(o.a), Status::SUCCESS, what)) break;
        if (o.a < n) { if (c_.cls == STD) fake_ = 0; else fake_ = std::max(fake_, n); }
        if (o.a < n || zeros) Resize(o.a, 0); else Grow(o.a);
        break;
      case 'F': {
        const Status s = f_->TruncateFakely(o.a);
        if (o.a > n) {
          // What is beyond the end is not told.
          if (s == Status::SUCCESS) Resize(o.a, 1); else Is(s, Status::INFEASIBLE_ERROR, what);
        } else if (Is(s, Status::SUCCESS, what)) { fake_ = std::max(fake_, n); Resize(o.a, 0); }
        break;
      }
      case 'S':
        if (!Is(f_->Synchronize(o.a > 0, o.a > 1 ? o.b : 0, o.a > 1 ? 600 : 0), Status::SUCCESS, what)) break;
        if (c_.cls != STD || fake_ == 0) if (o.a < 2) Physical(what, false);
        break;
      case 'N': {
        const std::string to = dir_ + (path_ == dir_ + "/file" ? "/renamed" : "/file");
        if (!Is(f_->Rename(to), Status::SUCCESS, what)) break;
        if (access(path_.c_str(), F_OK) == 0) Bad(what + ": the old path is still there");
        path_ = to;
        if (c_.cls == STD) fake_ = 0;
        break;
      }
      case 'O':
        if (Closing(what) && Open(o.a != 1, File::OPEN_DEFAULT) && Check(what) && o.a == 1) {
          char ch = 0;
          if (f_->Write(0, &ch, 1) != Status::PRECONDITION_ERROR || f_->Append(&ch, 1) != Status::PRECONDITION_ERROR || f_->Expand(1) != Status::PRECONDITION_ERROR || f_->Truncate(3) != Status::PRECONDITION_ERROR) Bad(what + ": an update of a read-only file does not fail");
          if (auto* pos = dynamic_cast<PositionalFile*>(f_.get())) { Is(pos->SetHeadBuffer(600), Status::SUCCESS, what + ": SetHeadBuffer"); Check(what); Is(pos->SetHeadBuffer(0), Status::SUCCESS, what + ": SetHeadBuffer(0)"); Check(what); }
          if (!Is(f_->Close(), Status::SUCCESS, what + ": closing the read-only file")) break;
          if (!Physical(what + " to read", true)) break;
          if (o.a == 1) MakeIt();
          Open(true, File::OPEN_NO_CREATE);
        }
        break;
      case 'M': {
        if (f_->Rename(dir_ + "/no/such") == Status::SUCCESS) Bad(what + " succeeds");
        if (c_.cls == STD) fake_ = 0;
        if (access((dir_ + "/no").c_str(), F_OK) == 0) Bad(what + ": a directory appears");
        break;
      }
      case 'P': {
        auto g = f_->MakeFile();
        if (!Is(f_->CopyProperties(g.get()), Status::SUCCESS, "CopyProperties")) break;
        if (!Closing(what)) break;
        f_ = std::move(g);
        Is(f_->Open(path_, true), Status::SUCCESS, what + ": opening");
        break;
      }
      case 'H': if (auto* pos = dynamic_cast<PositionalFile*>(f_.get())) Is(pos->SetHeadBuffer(o.a), Status::SUCCESS, what); break;
      case 'Z': if (c_.cls == MPARA) Zone<MemoryMapParallelFile>(o, what); else if (c_.cls == MATOM) Zone<MemoryMapAtomicFile>(o, what); break;
      case 'Y': if (c_.cls == MPARA) RZone<MemoryMapParallelFile>(o, what); else if (c_.cls == MATOM) RZone<MemoryMapAtomicFile>(o, what); break;
    }
    Check(what);
  }
  template <typename F> void Zone(const Op& o, const std::string& what) {
    auto* f = dynamic_cast<F*>(f_.get());
    if (!f) return;
    std::unique_ptr<typename F::Zone> z;
    if (!Is(f->MakeZone(true, o.a, o.b, &z), Status::SUCCESS, what)) return;
    const int64_t off = o.a < 0 ? (int64_t)m_.size() : o.a;
    if (z->Offset() != off || (int64_t)z->Size() != o.b) { Bad(what + ": the zone is wrong"); return; }
    const std::string d = Data(o.b);
    memcpy(z->Pointer(), d.data(), d.size());
    Put(off, d);
  }
  template <typename F> void RZone(const Op& o, const std::string& what) {
    auto* f = dynamic_cast<F*>(f_.get());
    if (!f) return;
    std::unique_ptr<typename F::Zone> z;
    const Status s = f->MakeZone(false, o.a, o.b, &z);
    if (o.a > (int64_t)m_.size()) { Is(s, Status::INFEASIBLE_ERROR, what); return; }
    if (!Is(s, Status::SUCCESS, what)) return;
    if (z->Offset() != o.a || z->Size() != std::min<size_t>(o.b, m_.size() - o.a)) { Bad(what + ": the zone is wrong"); return; }
    Same(std::string(z->Pointer(), z->Size()), o.a, what);
  }
  void Last() { if (err.empty() && f_->IsOpen()) Closing("the end"); }

 private:
  Cfg c_;
  std::string dir_, path_, m_;
  std::vector<char> u_;
  int64_t fake_ = 0;
  unsigned seed_ = 1;
  std::unique_ptr<File> f_;
};

static std::string g_disk;
static void RemoveDisk() { if (!g_disk.empty()) { unlink((g_disk + "/file").c_str()); unlink((g_disk + "/renamed").c_str()); rmdir(g_disk.c_str()); } }

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const auto& args = mc::args();
  const bool th = Thorough();
  const double deadline = Now() + args.time;
  const int32_t PAD = PositionalFile::ACCESS_PADDING, CACHE = PositionalFile::ACCESS_PAGECACHE, DIRECT = PositionalFile::ACCESS_DIRECT, SYNC = PositionalFile::ACCESS_SYNC;
  std::vector<Cfg> cfgs = {
      {"std", STD}, {"mmap-para", MPARA}, {"mmap-atom", MATOM}, {"pos-para", PPARA}, {"pos-atom", PATOM},
      {"pos-para block", PPARA, 1, 1.2, 512}, {"pos-atom block", PATOM, 1, 1.2, 512},
      {"pos-para cache head", PPARA, 1, 1.2, 512, CACHE, 600}, {"pos-atom cache head", PATOM, 1, 1.2, 512, CACHE, 600},
      {"pos-para pad", PPARA, 1, 1.5, 512, PAD}, {"pos-atom pad cache", PATOM, 1, 1.5, 512, PAD | CACHE},
      {"pos-para exact", PPARA, 0, 0}, {"pos-atom exact", PATOM, 0, 0},
      {"mmap-para 0", MPARA, 0, 0}, {"mmap-atom 9000", MATOM, 9000, 1.0},
      {"pos-para head sync", PPARA, 100, 3, 0, SYNC, 10}, {"pos-atom cache", PATOM, 100, 3, 1, CACHE},
      {"pos-para exact block", PPARA, 0, 0, 512, 0}, {"pos-atom exact block cache", PATOM, 0, 0, 512, CACHE},
      {"poly std", STD, 1, 2, 0, 0, -1, "std"}, {"poly mmap", MPARA, 1, 2, 0, 0, -1, "mmap-para"},
      {"poly pos cache", PATOM, 1, 2, 512, CACHE, 600, "pos-atom"}, {"poly pos pad", PPARA, 1, 2, 512, CACHE | PAD, 0, "pos-para"},
      {"pos-para direct", PPARA, 1, 1.2, 512, DIRECT | PAD, -1, "", true}, {"pos-atom direct cache head", PATOM, 1, 1.2, 512, DIRECT | PAD | CACHE, 600, "", true},
      {"pos-atom direct", PATOM, 1, 1.2, 512, DIRECT | PAD, 512, "", true}};
  Ops all, few;
  for (int64_t off : {0, 1, 511, 512, 4095, 4096, 5000}) for (int64_t len : {1, 600}) all.push_back({'W', off, len});
  for (auto& o : Ops{{'W', 0, 0}, {'W', 700, 0}, {'W', 0, 512}, {'W', 3, 5000}, {'W', 512, 9000}, {'w', 20}, {'w', 1200}, {'A', 0}, {'A', 1}, {'A', 511}, {'A', 512}, {'A', 5000}, {'E', 0}, {'E', 1}, {'E', 600}, {'E', 5000},
                       {'T', 0}, {'T', 1}, {'T', 512}, {'T', 513}, {'T', 9000}, {'F', 0}, {'F', 1}, {'F', 700}, {'F', 9999}, {'S', 0}, {'S', 1}, {'S', 2, 0}, {'S', 2, 4097}, {'S', 2, 99999}, {'O', 0}, {'O', 1}, {'P'}, {'N'}, {'M'},
                       {'H', 0}, {'H', 1}, {'H', 600}, {'H', 5000}, {'Z', 0, 600}, {'Z', -1, 5000}, {'Z', 4095, 2}, {'Y', 1, 600}, {'Y', 5000, 1}})
    all.push_back(o);
  for (auto& o : Ops{{'W', 0, 1}, {'W', 511, 600}, {'W', 4095, 600}, {'w', 1200}, {'A', 1}, {'A', 512}, {'A', 5000}, {'E', 600}, {'T', 1}, {'T', 513}, {'T', 9000}, {'F', 1}, {'F', 700}, {'S', 0}, {'S', 2, 0}, {'O', 0}, {'O', 1}, {'H', 0}, {'H', 600}, {'H', 5000}, {'Z', -1, 5000}})
    few.push_back(o);
  const std::vector<Ops> pres = {{}, {{'A', 1300}}, {{'A', 4200}, {'W', 100, 50}}};
  long index = 0, cases = 0, steps = 0;
  bool expired = false;
  mode_t um = umask(022);
  umask(um);
  auto skip = [&](const Cfg& c, const Op& o) { return (o.kind == 'P' && !c.poly.empty()) || (o.kind == 'H' && (!c.pos() || !c.poly.empty())) || ((o.kind == 'Z' || o.kind == 'Y') && (!c.mmap() || !c.poly.empty())); };
  bool zeros = false;
  auto gen = [&](const Cfg& c, const Ops& pre, const std::vector<const Ops*>& levels) {
    Ops ops;
    std::function<void()> rec = [&] {
      if (ops.size() < levels.size()) { for (auto& o : *levels[ops.size()]) { if (skip(c, o)) continue; ops.push_back(o); rec(); ops.pop_back(); } return; }
      std::string id = (zeros ? "shrunk and grown/" : "") + c.name + "/";
      for (auto& o : pre) id += Name(o) + ".";
      id += ":";
      for (auto& o : ops) id += Name(o) + ".";
      if (!args.only.empty() ? args.only != id : index++ % args.num_workers != args.worker) return;
      if (expired) { mc::Stat("incomplete", 1); return; }
      if (args.only.empty() && (cases & 15) == 0 && Now() > deadline) { expired = true; mc::Note("time ran out in " + id); return; }
      mc::SetContext(id);
      alarm(20);
      std::string dir = Scratch();
      if (c.disk) {
        if (g_disk.empty()) { char t[] = "/var/tmp/vpmc.XXXXXX"; if (!mkdtemp(t)) return; g_disk = t; atexit(RemoveDisk); }
        dir = g_disk;
      }
      unlink((dir + "/file").c_str());
      unlink((dir + "/renamed").c_str());
      {
        Case k(c, dir);
        k.zeros = zeros;
        k.Start();
        for (auto& o : pre) if (k.err.empty()) k.Do(o);
        for (auto& o : ops) if (k.err.empty()) k.Do(o);
        k.Last();
        if (!k.err.empty()) { if (getenv("VP_ALL")) printf("ALL %s %s\n", id.c_str(), k.err.c_str()); else mc::Violation(id, k.err); }
      }
      alarm(0);
      cases++;
      steps += pre.size() + ops.size();
    };
    rec();
  };
  // What Truncate promises about the bytes that it adds, after a shrinking.
  const Ops down = {{'T', 0}, {'T', 1}, {'T', 700}}, up = {{'T', 513}, {'T', 1200}, {'T', 4000}};
  zeros = true;
  for (auto& c : cfgs) if (!c.disk) gen(c, pres[1], {&down, &up});
  zeros = false;
  for (auto& c : cfgs) for (auto& p : pres) { gen(c, p, {}); gen(c, p, {&all}); }
  for (auto& c : cfgs) if (!c.disk) for (auto& p : pres) gen(c, p, {&all, &all});
  for (auto& c : cfgs) gen(c, pres[1], {&few, &few});
  for (auto& c : cfgs) if (!c.disk || th) gen(c, pres[1], {&few, &few, &few});
  for (auto& c : cfgs) if (!c.disk || th) gen(c, pres[2], {&few, &few, &few});
  if (th) for (auto& c : cfgs) if (!c.disk) gen(c, pres[1], {&few, &few, &few, &few});
  mc::Stat("states", cases);
  mc::Stat("transitions", steps);
  mc::Stat("traces", cases);
  mc::FinishReport();
}
