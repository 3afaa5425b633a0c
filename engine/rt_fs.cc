// File system calls of the code under test: scheduling points, effect log, fault injection.
#include "mc.h"
#include "rt_int.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#include <algorithm>
#include <mutex>

namespace mc {

bool rt_fs_maps = false;
uintptr_t rt_map_lo = 0, rt_map_hi = 0;
static struct { uintptr_t addr; size_t len; } g_live[256];
static int g_live_n = 0;
static void LiveBounds() {
  rt_map_lo = rt_map_hi = 0;
  for (int i = 0; i < g_live_n; i++) {
    if (i == 0 || g_live[i].addr < rt_map_lo) rt_map_lo = g_live[i].addr;
    if (i == 0 || g_live[i].addr + g_live[i].len > rt_map_hi) rt_map_hi = g_live[i].addr + g_live[i].len;
  }
}
static void LiveAdd(void* p, size_t n) {
  if (g_live_n < 256) { g_live[g_live_n].addr = (uintptr_t)p; g_live[g_live_n].len = n; g_live_n++; }
  LiveBounds();
}
static void LiveDel(void* p, size_t n) {
  for (int i = 0; i < g_live_n;) {
    if (g_live[i].addr >= (uintptr_t)p && g_live[i].addr < (uintptr_t)p + n) g_live[i] = g_live[--g_live_n];
    else i++;
  }
  LiveBounds();
}
uintptr_t RtMapBase(uintptr_t p) {
  for (int i = 0; i < g_live_n; i++) if (p - g_live[i].addr < g_live[i].len) return g_live[i].addr;
  return 0;
}

struct FdInfo { bool used = false; int ino = -1; std::string path; bool append = false; };
struct MapInfo { uintptr_t addr; size_t len; int ino; int64_t off; };
struct InoInfo { unsigned long dev, ino; std::string data; bool live = true; };

static std::string* g_dir = nullptr;       // effects below this directory matter
static bool g_rec = false;
static std::vector<FsEvent>* g_log = nullptr;
static FdInfo g_fds[1024];
static std::vector<MapInfo>* g_maps = nullptr;
static std::vector<InoInfo>* g_inos = nullptr;
static uintptr_t g_pend = 0;
static size_t g_pend_n = 0;

static FaultPlan g_plan;
static bool g_armed = false;
static long g_seen = 0;
static bool g_fired = false;
static std::string* g_what = nullptr;

struct Quiet { Quiet() { rt_in++; } ~Quiet() { rt_in--; } };

template <class F> static F Real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(name, type) static auto real = Real<type>(#name)

static bool InDir(const char* p) {
  return g_dir && p && strncmp(p, g_dir->c_str(), g_dir->size()) == 0;
}
static bool FdIn(int fd) { return fd >= 0 && fd < 1024 && g_fds[fd].used; }

static int InoOf(unsigned long dev, unsigned long ino) {
  for (size_t i = 0; i < g_inos->size(); i++) {
    auto& x = (*g_inos)[i];
    if (x.live && x.dev == dev && x.ino == ino) return i;
  }
  g_inos->push_back(InoInfo{dev, ino, "", true});
  return g_inos->size() - 1;
}

static void ApplyWrite(std::string* d, int64_t off, const char* p, size_t n) {
  if ((int64_t)d->size() < off + (int64_t)n) d->resize(off + n, 0);
  memcpy(&(*d)[off], p, n);
}

static void DiffRange(const MapInfo& m, uintptr_t lo, uintptr_t hi) {
  // Stores into [lo,hi) of the mapping are logged if they changed something.
  auto& in = (*g_inos)[m.ino];
  lo = std::max(lo, m.addr);
  hi = std::min(hi, m.addr + m.len);
  if (lo >= hi) return;
  int64_t off = m.off + (lo - m.addr);
  int64_t end = m.off + (hi - m.addr);
  end = std::min<int64_t>(end, in.data.size());
  if (off >= end) return;
  const char* mem = (const char*)lo;
  const char* old = in.data.data() + off;
  size_t n = end - off;
  if (memcmp(mem, old, n) == 0) return;
  size_t a = 0, b = n;
  while (a < b && mem[a] == old[a]) a++;
  while (b > a && mem[b - 1] == old[b - 1]) b--;
  FsEvent e;
  e.kind = FsEvent::WRITE;
  e.inode = m.ino;
  e.off = off + a;
  e.len = b - a;
  e.data.assign(mem + a, b - a);
  e.mapped = true;
  memcpy(&in.data[off + a], mem + a, b - a);
  g_log->push_back(std::move(e));
}

static void FlushPending() {
  if (!g_rec || !g_pend_n) return;
  uintptr_t p = g_pend;
  size_t n = g_pend_n;
  g_pend_n = 0;
  for (auto& m : *g_maps) if (p < m.addr + m.len && p + n > m.addr) { DiffRange(m, p, p + n); break; }
}
static void FlushAll() {
  if (!g_rec) return;
  FlushPending();
  for (auto& m : *g_maps) {
    // Whatever was stored by code that is not instrumented, page by page.
    const size_t P = 4096;
    for (size_t o = 0; o < m.len; o += P) DiffRange(m, m.addr + o, m.addr + std::min(m.len, o + P));
  }
}

void RtStoreSlow(void* p, size_t n) {
  if (!g_rec || rt_in) return;
  Quiet q;
  if (g_pend_n) FlushPending();
  for (auto& m : *g_maps) {
    if ((uintptr_t)p < m.addr + m.len && (uintptr_t)p + n > m.addr) {
      g_pend = (uintptr_t)p;
      g_pend_n = n;
      return;
    }
  }
}
void RtStoreDoneSlow(void* p, size_t n) {
  if (!g_rec || rt_in || !g_pend_n) return;
  Quiet q;
  FlushPending();
}

static void Log(FsEvent e) {
  if (g_rec) g_log->push_back(std::move(e));
}

std::string FsEvent::ToString() const {
  static const char* names[] = {"CREATE", "WRITE", "TRUNC", "RENAME", "UNLINK", "FSYNC", "FSYNCDIR", "MARK", "SYNCRANGE"};
  std::string s = names[kind];
  s += " ino=" + std::to_string(inode) + " off=" + std::to_string(off) + " len=" + std::to_string(len);
  if (mapped) s += " mapped";
  if (!path.empty()) s += " " + path;
  if (!path2.empty()) s += " -> " + path2;
  return s;
}

void FsScope(const std::string& dir) {
  Quiet q;
  if (!g_dir) g_dir = new std::string;
  if (!g_log) g_log = new std::vector<FsEvent>;
  if (!g_maps) g_maps = new std::vector<MapInfo>;
  if (!g_inos) g_inos = new std::vector<InoInfo>;
  *g_dir = dir;
}

static std::string ReadAll(const std::string& path) {
  std::string r;
  int fd = ::open(path.c_str(), O_RDONLY);
  if (fd < 0) return r;
  char buf[65536];
  ssize_t n;
  while ((n = ::read(fd, buf, sizeof(buf))) > 0) r.append(buf, n);
  ::close(fd);
  return r;
}

void FsStart(const std::string& dir) {
  FsScope(dir);
  Quiet q;
  g_log->clear();
  g_inos->clear();
  g_maps->clear();
  rt_fs_maps = false;
  DIR* d = opendir(dir.c_str());
  std::vector<std::string> names;
  if (d) {
    while (auto* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
    closedir(d);
  }
  std::sort(names.begin(), names.end());
  g_rec = true;
  for (auto& n : names) {
    std::string p = dir + "/" + n;
    struct stat st;
    if (stat(p.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) continue;
    int id = InoOf(st.st_dev, st.st_ino);
    FsEvent e;
    e.kind = FsEvent::CREATE; e.inode = id; e.path = p;
    Log(e);
    e = FsEvent();
    e.kind = FsEvent::WRITE; e.inode = id; e.data = ReadAll(p); e.len = e.data.size();
    (*g_inos)[id].data = e.data;
    Log(e);
    e = FsEvent(); e.kind = FsEvent::FSYNC; e.inode = id; e.len = -1;
    Log(e);
  }
  FsEvent e;
  e.kind = FsEvent::MARK; e.path = "start";
  Log(e);
}
std::vector<FsEvent> FsStop() {
  Quiet q;
  FlushAll();
  g_rec = false;
  rt_fs_maps = false;
  std::vector<FsEvent> r;
  r.swap(*g_log);
  g_maps->clear();
  return r;
}
void FsMark(const std::string& label) {
  if (!g_rec) return;
  Quiet q;
  FlushAll();
  FsEvent e;
  e.kind = FsEvent::MARK;
  e.path = label;
  Log(e);
}
bool FsRecording() { return g_rec; }

void FaultArm(const FaultPlan& plan) {
  Quiet q;
  g_plan = plan;
  g_seen = 0;
  g_fired = false;
  if (!g_what) g_what = new std::string;
  g_what->clear();
  g_armed = true;
}
bool FaultFired() { return g_fired; }
long FaultDisarm(bool* fired, std::string* what) {
  Quiet q;
  g_armed = false;
  if (fired) *fired = g_fired;
  if (what) *what = g_what ? *g_what : "";
  return g_seen;
}

// Returns true if this call is to fail; sets errno. `shortp` tells that a short transfer is wanted.
static bool Fault(const char* kind, const std::string& path, bool* shortp = nullptr) {
  if (!g_armed || rt_in > 1) return false;
  if (!g_plan.kinds.empty()) {
    std::string k = "," + g_plan.kinds + ",", x = std::string(",") + kind + ",";
    if (k.find(x) == std::string::npos) return false;
  }
  const long i = g_seen++;
  if (g_plan.nth < 0 || i < g_plan.nth || i >= g_plan.nth + g_plan.count) return false;
  if (!g_fired) *g_what = std::string(kind) + " " + path;
  g_fired = true;
  if (g_plan.short_io && shortp) { *shortp = true; return false; }
  errno = g_plan.err;
  return true;
}

static void FdOpened(int fd, const char* path, bool existed, int flags) {
  if (fd < 0 || fd >= 1024) return;
  g_fds[fd] = FdInfo();
  if (!InDir(path)) return;
  g_fds[fd].used = true;
  g_fds[fd].path = path;
  g_fds[fd].append = flags & O_APPEND;
  struct stat st;
  if (!g_rec || fstat(fd, &st) != 0 || !S_ISREG(st.st_mode)) return;
  if (!existed) {
    // A fresh file may reuse the number of a deleted one.
    for (auto& x : *g_inos) if (x.dev == st.st_dev && x.ino == st.st_ino) x.live = false;
  }
  int id = InoOf(st.st_dev, st.st_ino);
  g_fds[fd].ino = id;
  if (!existed) {
    FsEvent e; e.kind = FsEvent::CREATE; e.inode = id; e.path = path;
    (*g_inos)[id].data.clear();
    Log(e);
  } else if (flags & O_TRUNC) {
    FsEvent e; e.kind = FsEvent::TRUNC; e.inode = id; e.len = 0;
    (*g_inos)[id].data.clear();
    Log(e);
  }
}

static void RecWrite(int fd, int64_t off, const void* buf, ssize_t n) {
  if (!g_rec || n <= 0 || !FdIn(fd) || g_fds[fd].ino < 0) return;
  FsEvent e;
  e.kind = FsEvent::WRITE;
  e.inode = g_fds[fd].ino;
  e.off = off;
  e.len = n;
  e.data.assign((const char*)buf, n);
  ApplyWrite(&(*g_inos)[e.inode].data, off, (const char*)buf, n);
  Log(std::move(e));
}

}  // namespace mc

using namespace mc;

// Every wrapper: outside of the runtime only. `tracked` files are those below the scope directory.
#define ENTER(tracked) \
  if (rt_in) return PASS; \
  if (tracked) RtIoPoint(); \
  Quiet q_; \
  if (g_rec) FlushAll()

extern "C" {

static int DoOpen(int (*real)(const char*, int, ...), const char* path, int flags, mode_t mode) {
  if (rt_in) return real(path, flags, mode);
  const bool in = InDir(path);
  if (in) RtIoPoint();
  Quiet q;
  if (g_rec) FlushAll();
  if (in && Fault("open", path)) return -1;
  struct stat st;
  const bool existed = in && g_rec ? stat(path, &st) == 0 : true;
  int fd = real(path, flags, mode);
  int e = errno;
  if (fd >= 0) FdOpened(fd, path, existed, flags);
  errno = e;
  return fd;
}
int open(const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
  REAL(open, int (*)(const char*, int, ...));
  return DoOpen(real, path, flags, m);
}
int open64(const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
  REAL(open64, int (*)(const char*, int, ...));
  return DoOpen(real, path, flags, m);
}
static FILE* DoFopen(FILE* (*real)(const char*, const char*), const char* path, const char* mode) {
  if (rt_in) return real(path, mode);
  const bool in = InDir(path);
  if (in) RtIoPoint();
  Quiet q;
  if (g_rec) FlushAll();
  if (in && Fault("open", path)) return nullptr;
  struct stat st;
  const bool existed = in && g_rec ? stat(path, &st) == 0 : true;
  FILE* f = real(path, mode);
  int e = errno;
  if (f) FdOpened(fileno(f), path, existed, (mode[0] == 'w' ? O_TRUNC : 0) | (mode[0] == 'a' ? O_APPEND : 0));
  errno = e;
  return f;
}
FILE* fopen(const char* path, const char* mode) {
  REAL(fopen, FILE* (*)(const char*, const char*));
  return DoFopen(real, path, mode);
}
FILE* fopen64(const char* path, const char* mode) {
  REAL(fopen64, FILE* (*)(const char*, const char*));
  return DoFopen(real, path, mode);
}
int fclose(FILE* f) {
  REAL(fclose, int (*)(FILE*));
  if (rt_in || !f) return real(f);
  int fd = fileno(f);
  const bool in = FdIn(fd);
  if (in) RtIoPoint();
  Quiet q;
  if (g_rec) FlushAll();
  std::string path = in ? g_fds[fd].path : "";
  if (fd >= 0 && fd < 1024) g_fds[fd] = FdInfo();
  int r = real(f);
  if (in && Fault("close", path)) return -1;
  return r;
}
int close(int fd) {
  REAL(close, int (*)(int));
  if (rt_in) return real(fd);
  const bool in = FdIn(fd);
  if (in) RtIoPoint();
  Quiet q;
  if (g_rec) FlushAll();
  std::string path = in ? g_fds[fd].path : "";
  if (fd >= 0 && fd < 1024) g_fds[fd] = FdInfo();
  int r = real(fd);
  if (in && Fault("close", path)) return -1;
  return r;
}

#define PASS real(fd, buf, n, off)
static ssize_t DoPread(ssize_t (*real)(int, void*, size_t, off_t), int fd, void* buf, size_t n, off_t off) {
  const bool in = FdIn(fd);
  ENTER(in);
  bool sh = false;
  if (in && Fault("pread", g_fds[fd].path, &sh)) return -1;
  if (sh && n > 1) n = n / 2;
  return real(fd, buf, n, off);
}
static ssize_t DoPwrite(ssize_t (*real)(int, const void*, size_t, off_t), int fd, const void* buf, size_t n, off_t off) {
  const bool in = FdIn(fd);
  ENTER(in);
  bool sh = false;
  if (in && Fault("pwrite", g_fds[fd].path, &sh)) return -1;
  if (sh && n > 1) n = n / 2;
  ssize_t r = real(fd, buf, n, off);
  int e = errno;
  RecWrite(fd, off, buf, r);
  errno = e;
  return r;
}
#undef PASS
ssize_t pread(int fd, void* buf, size_t n, off_t off) {
  REAL(pread, ssize_t (*)(int, void*, size_t, off_t));
  if (!rt_in) RtBufferAccess(buf, n, true);
  return DoPread(real, fd, buf, n, off);
}
ssize_t pread64(int fd, void* buf, size_t n, off_t off) {
  REAL(pread64, ssize_t (*)(int, void*, size_t, off_t));
  if (!rt_in) RtBufferAccess(buf, n, true);
  return DoPread(real, fd, buf, n, off);
}
ssize_t pwrite(int fd, const void* buf, size_t n, off_t off) {
  REAL(pwrite, ssize_t (*)(int, const void*, size_t, off_t));
  if (!rt_in) RtBufferAccess(buf, n, false);
  return DoPwrite(real, fd, buf, n, off);
}
ssize_t pwrite64(int fd, const void* buf, size_t n, off_t off) {
  REAL(pwrite64, ssize_t (*)(int, const void*, size_t, off_t));
  if (!rt_in) RtBufferAccess(buf, n, false);
  return DoPwrite(real, fd, buf, n, off);
}
#define PASS real(fd, buf, n)
ssize_t read(int fd, void* buf, size_t n) {
  REAL(read, ssize_t (*)(int, void*, size_t));
  const bool in = FdIn(fd);
  ENTER(in);
  bool sh = false;
  if (in && Fault("read", g_fds[fd].path, &sh)) return -1;
  return real(fd, buf, n);
}
ssize_t write(int fd, const void* buf, size_t n) {
  REAL(write, ssize_t (*)(int, const void*, size_t));
  const bool in = FdIn(fd);
  ENTER(in);
  bool sh = false;
  if (in && Fault("write", g_fds[fd].path, &sh)) return -1;
  if (sh && n > 1) n = n / 2;
  off_t off = 0;
  if (in && g_rec) {
    struct stat st;
    off = g_fds[fd].append && fstat(fd, &st) == 0 ? st.st_size : lseek(fd, 0, SEEK_CUR);
  }
  ssize_t r = real(fd, buf, n);
  int e = errno;
  if (in) RecWrite(fd, off, buf, r);
  errno = e;
  return r;
}
#undef PASS
struct iovec;
ssize_t writev(int fd, const struct iovec* iov, int cnt) {
  struct IoV { void* base; size_t len; };
  REAL(writev, ssize_t (*)(int, const struct iovec*, int));
#define PASS real(fd, iov, cnt)
  const bool in = FdIn(fd);
  ENTER(in);
#undef PASS
  if (in && Fault("write", g_fds[fd].path)) return -1;
  off_t off = 0;
  if (in && g_rec) off = lseek(fd, 0, SEEK_CUR);
  ssize_t r = real(fd, iov, cnt);
  int e = errno;
  ssize_t left = r;
  const IoV* v = (const IoV*)iov;
  for (int i = 0; in && i < cnt && left > 0; i++) {
    ssize_t m = std::min<ssize_t>(left, v[i].len);
    RecWrite(fd, off, v[i].base, m);
    off += m;
    left -= m;
  }
  errno = e;
  return r;
}

#define PASS real(fd, len)
static int DoFtruncate(int (*real)(int, off_t), int fd, off_t len) {
  const bool in = FdIn(fd);
  ENTER(in);
  if (in && Fault("ftruncate", g_fds[fd].path)) return -1;
  int r = real(fd, len);
  if (r == 0 && in && g_rec && g_fds[fd].ino >= 0) {
    FsEvent e; e.kind = FsEvent::TRUNC; e.inode = g_fds[fd].ino; e.len = len;
    (*g_inos)[e.inode].data.resize(len, 0);
    Log(e);
  }
  return r;
}
#undef PASS
int ftruncate(int fd, off_t len) { REAL(ftruncate, int (*)(int, off_t)); return DoFtruncate(real, fd, len); }
int ftruncate64(int fd, off_t len) { REAL(ftruncate64, int (*)(int, off_t)); return DoFtruncate(real, fd, len); }
#define PASS real(path, len)
static int DoTruncate(int (*real)(const char*, off_t), const char* path, off_t len) {
  const bool in = InDir(path);
  ENTER(in);
  if (in && Fault("truncate", path)) return -1;
  int r = real(path, len);
  if (r == 0 && in && g_rec) {
    struct stat st;
    if (stat(path, &st) == 0) {
      FsEvent e; e.kind = FsEvent::TRUNC; e.inode = InoOf(st.st_dev, st.st_ino); e.len = len;
      (*g_inos)[e.inode].data.resize(len, 0);
      Log(e);
    }
  }
  return r;
}
#undef PASS
int truncate(const char* path, off_t len) { REAL(truncate, int (*)(const char*, off_t)); return DoTruncate(real, path, len); }
int truncate64(const char* path, off_t len) { REAL(truncate64, int (*)(const char*, off_t)); return DoTruncate(real, path, len); }

static void RecSync(int fd) {
  if (!g_rec || !FdIn(fd)) return;
  struct stat st;
  FsEvent e;
  if (fstat(fd, &st) == 0 && S_ISDIR(st.st_mode)) e.kind = FsEvent::FSYNCDIR;
  else e.kind = FsEvent::FSYNC;
  e.inode = g_fds[fd].ino;
  e.len = -1;
  e.path = g_fds[fd].path;
  Log(e);
}
#define PASS real(fd)
int fsync(int fd) {
  REAL(fsync, int (*)(int));
  const bool in = FdIn(fd);
  ENTER(in);
  if (in && Fault("fsync", g_fds[fd].path)) return -1;
  if (in) { RecSync(fd); return 0; }   // the scratch files need no real flush
  return real(fd);
}
int fdatasync(int fd) {
  REAL(fdatasync, int (*)(int));
  const bool in = FdIn(fd);
  ENTER(in);
  if (in && Fault("fsync", g_fds[fd].path)) return -1;
  if (in) { RecSync(fd); return 0; }
  return real(fd);
}
#undef PASS
#define PASS real(addr, len, flags)
int msync(void* addr, size_t len, int flags) {
  REAL(msync, int (*)(void*, size_t, int));
  ENTER(true);
  if (Fault("msync", "")) return -1;
  if (g_rec && (flags & MS_SYNC)) {
    for (auto& m : *g_maps) {
      if ((uintptr_t)addr < m.addr + m.len && (uintptr_t)addr + len > m.addr) {
        FsEvent e; e.kind = FsEvent::FSYNC; e.inode = m.ino;
        const uintptr_t lo = std::max((uintptr_t)addr, m.addr), hi = std::min((uintptr_t)addr + len, m.addr + m.len);
        e.off = m.off + (lo - m.addr);
        e.len = hi - lo;
        Log(e);
      }
    }
  }
  return real(addr, len, MS_ASYNC);
}
#undef PASS
#define PASS real(fd, off, n, flags)
int sync_file_range(int fd, off64_t off, off64_t n, unsigned flags) {
  REAL(sync_file_range, int (*)(int, off64_t, off64_t, unsigned));
  const bool in = FdIn(fd);
  ENTER(in);
  if (in && Fault("sync_file_range", g_fds[fd].path)) return -1;
  return real(fd, off, n, flags);
}
#undef PASS
#define PASS real(a, b)
int rename(const char* a, const char* b) {
  REAL(rename, int (*)(const char*, const char*));
  const bool in = InDir(a) || InDir(b);
  ENTER(in);
  if (in && Fault("rename", a)) return -1;
  int r = real(a, b);
  if (r == 0 && in && g_rec) { FsEvent e; e.kind = FsEvent::RENAME; e.path = a; e.path2 = b; Log(e); }
  return r;
}
#undef PASS
#define PASS real(a)
int unlink(const char* a) {
  REAL(unlink, int (*)(const char*));
  const bool in = InDir(a);
  ENTER(in);
  if (in && Fault("unlink", a)) return -1;
  int r = real(a);
  int e0 = errno;
  if (r == 0 && in && g_rec) { FsEvent e; e.kind = FsEvent::UNLINK; e.path = a; Log(e); }
  errno = e0;
  return r;
}
int rmdir(const char* a) {
  REAL(rmdir, int (*)(const char*));
  const bool in = InDir(a);
  ENTER(in);
  if (in && Fault("rmdir", a)) return -1;
  return real(a);
}
#undef PASS
#define PASS real(a, m)
int mkdir(const char* a, mode_t m) {
  REAL(mkdir, int (*)(const char*, mode_t));
  const bool in = InDir(a);
  ENTER(in);
  if (in && Fault("mkdir", a)) return -1;
  return real(a, m);
}
#undef PASS
#define PASS real(a, st)
int stat(const char* a, struct stat* st) {
  REAL(stat, int (*)(const char*, struct stat*));
  const bool in = InDir(a);
  ENTER(in);
  if (in && Fault("stat", a)) return -1;
  return real(a, st);
}
int stat64(const char* a, struct stat64* st) {
  REAL(stat64, int (*)(const char*, struct stat64*));
  const bool in = InDir(a);
  ENTER(in);
  if (in && Fault("stat", a)) return -1;
  return real(a, st);
}
#undef PASS
#define PASS real(fd, st)
int fstat(int fd, struct stat* st) {
  REAL(fstat, int (*)(int, struct stat*));
  const bool in = FdIn(fd);
  ENTER(in);
  if (in && Fault("fstat", g_fds[fd].path)) return -1;
  return real(fd, st);
}
int fstat64(int fd, struct stat64* st) {
  REAL(fstat64, int (*)(int, struct stat64*));
  const bool in = FdIn(fd);
  ENTER(in);
  if (in && Fault("fstat", g_fds[fd].path)) return -1;
  return real(fd, st);
}
#undef PASS
#define PASS real(fd, off, wh)
off_t lseek(int fd, off_t off, int wh) {
  REAL(lseek, off_t (*)(int, off_t, int));
  const bool in = FdIn(fd);
  ENTER(in);
  if (in && Fault("lseek", g_fds[fd].path)) return -1;
  return real(fd, off, wh);
}
off64_t lseek64(int fd, off64_t off, int wh) {
  REAL(lseek64, off64_t (*)(int, off64_t, int));
  const bool in = FdIn(fd);
  ENTER(in);
  if (in && Fault("lseek", g_fds[fd].path)) return -1;
  return real(fd, off, wh);
}
#undef PASS

static void AddMap(void* p, size_t n, int fd, off_t off) {
  if (!g_rec || !FdIn(fd) || g_fds[fd].ino < 0) return;
  g_maps->push_back(MapInfo{(uintptr_t)p, n, g_fds[fd].ino, off});
  rt_fs_maps = true;
}
#define PASS real(a, n, prot, flags, fd, off)
static void* DoMmap(void* (*real)(void*, size_t, int, int, int, off_t), void* a, size_t n, int prot, int flags, int fd, off_t off) {
  const bool in = FdIn(fd);
  if (!in) return PASS;
  ENTER(in);
  if (in && Fault("mmap", g_fds[fd].path)) return MAP_FAILED;
  void* p = real(a, n, prot, flags, fd, off);
  if (p != MAP_FAILED && (flags & MAP_SHARED) && (prot & PROT_WRITE)) AddMap(p, n, fd, off);
  if (p != MAP_FAILED) {
    if (flags & MAP_SHARED) { LiveAdd(p, n); RtClearRange(p, 8); }
    else RtClearRange(p, n);
  }
  return p;
}
#undef PASS
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) __THROW {
  static auto real = Real<void* (*)(void*, size_t, int, int, int, off_t)>("mmap");
  if (!real) real = Real<void* (*)(void*, size_t, int, int, int, off_t)>("mmap");
  return DoMmap(real, a, n, prot, flags, fd, off);
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) __THROW {
  static auto real = Real<void* (*)(void*, size_t, int, int, int, off_t)>("mmap64");
  return DoMmap(real, a, n, prot, flags, fd, off);
}
static void OnUnmap(void* a, size_t n) {
  if (!g_maps) return;
  for (size_t i = 0; i < g_maps->size();) {
    auto& m = (*g_maps)[i];
    if (m.addr >= (uintptr_t)a && m.addr < (uintptr_t)a + n) g_maps->erase(g_maps->begin() + i);
    else i++;
  }
  rt_fs_maps = !g_maps->empty();
}
int munmap(void* a, size_t n) __THROW {
  REAL(munmap, int (*)(void*, size_t));
  if (rt_in) return real(a, n);
  if (g_dir) RtIoPoint();
  const bool live = RtMapBase((uintptr_t)a) == (uintptr_t)a;
  RtBufferAccess(a, live ? 8 : std::min<size_t>(n, 65536), true);
  Quiet q;
  if (g_rec) FlushAll();
  if (g_armed && Fault("munmap", "")) return -1;
  OnUnmap(a, n);
  if (live) LiveDel(a, n);
  int r = real(a, n);
  RtClearRange(a, live ? 8 : n);
  return r;
}
void* mremap(void* a, size_t on, size_t nn, int flags, ...) __THROW {
  va_list ap; va_start(ap, flags); void* hint = va_arg(ap, void*); va_end(ap);
  REAL(mremap, void* (*)(void*, size_t, size_t, int, ...));
  if (rt_in) return real(a, on, nn, flags, hint);
  if (g_dir) RtIoPoint();
  const bool live = RtMapBase((uintptr_t)a) == (uintptr_t)a;
  if (flags) RtBufferAccess(a, live ? 8 : std::min<size_t>(on, 65536), true);
  Quiet q;
  if (g_rec) FlushAll();
  if (Fault("mremap", "")) return MAP_FAILED;
  MapInfo mi{0, 0, -1, 0};
  if (g_rec) for (auto& m : *g_maps) if (m.addr == (uintptr_t)a) mi = m;
  void* p = real(a, on, nn, flags, hint);
  if (p != MAP_FAILED) {
    OnUnmap(a, on);
    if (mi.ino >= 0) {
      g_maps->push_back(MapInfo{(uintptr_t)p, nn, mi.ino, mi.off});
      rt_fs_maps = true;
    }
    if (live) {
      LiveDel(a, on);
      LiveAdd(p, nn);
      if (p != a) { RtClearRange(a, 8); RtClearRange(p, 8); }
    } else {
      RtClearRange(a, on);
      RtClearRange(p, nn);
    }
  }
  return p;
}

#define PASS real(ofd, ifd, off, n)
static ssize_t DoSendfile(ssize_t (*real)(int, int, off_t*, size_t), int ofd, int ifd, off_t* off, size_t n) {
  const bool in = FdIn(ofd);
  ENTER(in);
  if (in && Fault("sendfile", g_fds[ofd].path)) return -1;
  off_t wp = 0;
  if (in && g_rec) wp = lseek(ofd, 0, SEEK_CUR);
  ssize_t r = real(ofd, ifd, off, n);
  int e = errno;
  if (r > 0 && in && g_rec) {
    std::string buf(r, 0);
    struct stat st;
    fstat(ofd, &st);
    std::string path = "/proc/self/fd/" + std::to_string(ofd);
    int fd = open(path.c_str(), O_RDONLY);
    ssize_t m = fd >= 0 ? pread(fd, &buf[0], r, wp) : -1;
    if (fd >= 0) close(fd);
    if (m == r) RecWrite(ofd, wp, buf.data(), r);
  }
  errno = e;
  return r;
}
#undef PASS
ssize_t sendfile(int ofd, int ifd, off_t* off, size_t n) __THROW { REAL(sendfile, ssize_t (*)(int, int, off_t*, size_t)); return DoSendfile(real, ofd, ifd, off, n); }
ssize_t sendfile64(int ofd, int ifd, off64_t* off, size_t n) __THROW { REAL(sendfile64, ssize_t (*)(int, int, off_t*, size_t)); return DoSendfile(real, ofd, ifd, off, n); }

static bool IsLockCmd(int cmd) { return cmd == F_SETLK || cmd == F_SETLKW; }
#define PASS real(fd, cmd, arg)
static int DoFcntl(int (*real)(int, int, ...), int fd, int cmd, void* arg) {
  const bool in = FdIn(fd) && IsLockCmd(cmd);
  ENTER(in);
  if (in && Fault("fcntl", g_fds[fd].path)) return -1;
  return real(fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
  REAL(fcntl, int (*)(int, int, ...));
  return DoFcntl(real, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
  REAL(fcntl64, int (*)(int, int, ...));
  return DoFcntl(real, fd, cmd, arg);
}
#undef PASS
}  // extern "C"
