// Controlled scheduler, happens-before race detector and ThreadSanitizer ABI. Not instrumented.
#include "mc.h"
#include "rt_int.h"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <set>
#include <unordered_map>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace mc {

// ------------------------------------------------------------------ raw futex hand-off
static long raw_syscall(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
struct Sem {
  int v = 0;
  void Post() {
    __atomic_store_n(&v, 1, __ATOMIC_RELEASE);
    raw_syscall(SYS_futex, (long)&v, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
  }
  void Wait() {
    while (!__atomic_load_n(&v, __ATOMIC_ACQUIRE)) {
      raw_syscall(SYS_futex, (long)&v, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
    }
    v = 0;
  }
};

static constexpr int MAXT = 14;
struct VC {
  uint32_t c[MAXT];
  VC() { memset(c, 0, sizeof(c)); }
  void Join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum St { RUN, W_MUTEX, W_COND, W_RD, W_WR, W_JOIN, W_FUTEX, W_SLEEP, W_ONCE, DONE };
static const char* st_names[] = {"run", "mutex", "cond", "rdlock", "wrlock", "join", "futex",
                                 "sleep", "once", "done"};

struct Thr {
  int tid = 0;
  St st = RUN;
  void* obj = nullptr;
  void* obj2 = nullptr;
  bool timed = false;
  uint64_t deadline = 0;
  bool timedout = false;
  bool yielded = false;
  uint64_t yield_ver = 0;
  int idle_yields = 0;
  Sem sem;
  VC vc;
  pthread_t pt{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  bool joined = false, detached = false;
  // spin detection
  const void* spin_addr = nullptr;
  const void* spin_pc = nullptr;
  int spin_n = 0;
  uintptr_t stack_lo = 0, stack_hi = 0;
  VC fence_acq, fence_rel;
  bool has_fence_rel = false;
  int nosched = 0;
};

static __thread Thr* self = nullptr;
#define in_rt rt_in   // inside the runtime: hooks are inert

struct MutexS { int owner = -1; int depth = 0; VC vc; };
struct RwS { int writer = -1; int readers = 0; VC vc, rvc; };

template <class T> struct NoHookAlloc {
  typedef T value_type;
  NoHookAlloc() {}
  template <class U> NoHookAlloc(const NoHookAlloc<U>&) {}
  T* allocate(size_t n) { return (T*)__libc_malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { __libc_free(p); }
  template <class U> bool operator==(const NoHookAlloc<U>&) const { return true; }
  template <class U> bool operator!=(const NoHookAlloc<U>&) const { return false; }
};
template <class K, class V> using HMap = std::unordered_map<
    K, V, std::hash<K>, std::equal_to<K>, NoHookAlloc<std::pair<const K, V>>>;

struct ChoicePoint { int n; int chosen; };

struct World {
  std::vector<Thr*> thr;
  HMap<void*, MutexS> mutexes;
  HMap<void*, VC> once_vc;
  HMap<void*, RwS> rws;
  HMap<const void*, VC> atoms;
  uint64_t write_ver = 1;
  uint64_t vtime = 0;
  long stamp = 0;
  std::vector<ChoicePoint> points;
  std::vector<int> prefix;
  int preemptions = 0;
  long steps = 0;
  bool cutting = false;
  int rr = 0;
  long idle_rounds = 0;
  std::vector<Event> hist;
  std::string outcome;
  long choice_points = 0;
  bool single = true;   // only the main thread exists: nothing needs shadowing
};
static World* W = nullptr;
static bool active = false;
static ExploreOptions opt;
static std::string scenario_name;
static bool replaying = false;
static long diverged = 0;
static int g_trace = 0;

bool InExec() { return active && self; }
static void Schedule(Thr* cur);
void Point() { if (active && self && rt_in == 0) { rt_in++; self->spin_n = 0; Schedule(self); rt_in--; } }
int CurrentThread() { return self ? self->tid : -1; }
long Now() { return W ? ++W->stamp : 0; }

struct RtGuard {
  RtGuard() { in_rt++; }
  ~RtGuard() { in_rt--; }
};

// ------------------------------------------------------------------ shadow memory
struct Access { uint32_t epoch; uint8_t tid; uint8_t mask; uint8_t flags; uint8_t pad; const void* pc; };
enum { A_WRITE = 1, A_ATOMIC = 2, A_FREED = 4, A_USED = 8 };
static constexpr int CELL_N = 4;
struct Cell { uintptr_t key; uint32_t gen; uint32_t rr; Access a[CELL_N]; };
static constexpr size_t SHADOW_N = 1 << 19;
static Cell* shadow = nullptr;
static uint32_t shadow_gen = 0;
static size_t shadow_used = 0;
static void ShadowReset() {
  if (!shadow) {
    shadow = (Cell*)mmap(nullptr, SHADOW_N * sizeof(Cell), PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  shadow_gen++;
  shadow_used = 0;
}
static Cell* ShadowFind(uintptr_t key, bool create) {
  size_t h = (key * 0x9E3779B97F4A7C15ull) >> 45;
  for (int i = 0; i < 64; i++) {
    Cell* c = shadow + ((h + i) & (SHADOW_N - 1));
    if (c->gen != shadow_gen) {
      if (!create) return nullptr;
      c->gen = shadow_gen;
      c->key = key;
      c->rr = 0;
      memset(c->a, 0, sizeof(c->a));
      shadow_used++;
      return c;
    }
    if (c->key == key) return c;
  }
  return nullptr;
}
static void ShadowClear(uintptr_t p, size_t n) {
  if (!shadow || n == 0) return;
  if (n > (1 << 16)) n = 1 << 16;
  for (uintptr_t k = p >> 3; k <= (p + n - 1) >> 3; k++) {
    Cell* c = ShadowFind(k, false);
    if (c) memset(c->a, 0, sizeof(c->a));
  }
}

void RtClearRange(const void* p, size_t n) {
  if (!active || !W || W->single) return;
  for (size_t o = 0; o < n && o < (1 << 18); o += 1 << 16) ShadowClear((uintptr_t)p + o, std::min<size_t>(n - o, 1 << 16));
}

static void ReportRace(Thr* t, const Access& o, uintptr_t addr, int flags, const void* pc);

static inline void ShadowAccess1(Thr* t, uintptr_t key, uint8_t mask, int flags, const void* pc) {
  Cell* c = ShadowFind(key, true);
  if (!c) return;
  const bool w = flags & A_WRITE, at = flags & A_ATOMIC;
  int slot = -1;
  for (int i = 0; i < CELL_N; i++) {
    Access& o = c->a[i];
    if (!(o.flags & A_USED)) { if (slot < 0) slot = i; continue; }
    if (!(o.mask & mask)) continue;
    if (o.flags & A_FREED) {
      ReportRace(t, o, key << 3, flags, pc);
      continue;
    }
    if (o.tid == t->tid) {
      if ((o.flags & (A_WRITE | A_ATOMIC)) == (flags & (A_WRITE | A_ATOMIC)) && o.mask == mask) slot = i;
      continue;
    }
    if (!(w || (o.flags & A_WRITE))) continue;
    if (at && (o.flags & A_ATOMIC)) continue;
    if (o.epoch > t->vc.c[o.tid]) {
      const uintptr_t a = key << 3;
      if (a >= t->stack_lo && a < t->stack_hi && W->thr[o.tid]->st == DONE) continue;
      ReportRace(t, o, a, flags, pc);
    }
  }
  if (slot < 0) {
    for (int i = 0; i < CELL_N && slot < 0; i++) {
      Access& o = c->a[i];
      if (o.tid != t->tid && o.epoch <= t->vc.c[o.tid] && w && (o.mask & ~mask) == 0) slot = i;
    }
  }
  if (slot < 0) slot = c->rr++ % CELL_N;
  c->a[slot] = Access{t->vc.c[t->tid], (uint8_t)t->tid, mask, (uint8_t)(flags | A_USED), 0, pc};
}

static void ShadowRange(Thr* t, uintptr_t p, size_t n, int flags, const void* pc) {
  if (n == 0) return;
  if (n > 65536) n = 65536;
  uintptr_t e = p + n;
  while (p < e) {
    const uintptr_t key = p >> 3;
    const int b = p & 7;
    const int m = std::min<uintptr_t>(8 - b, e - p);
    ShadowAccess1(t, key, ((1u << m) - 1) << b, flags, pc);
    p += m;
  }
}

static inline bool Hot() { return active && self && in_rt == 0; }

static inline void PlainAccess(const void* p, size_t n, bool w, const void* pc) {
  if (!Hot()) return;
  if (!opt.races || (W && W->single)) return;
  RtGuard g;
  if (RtMaybeMap(p)) {
    const uintptr_t b = RtMapBase((uintptr_t)p);
    if (b) { ShadowRange(self, b, 8, 0, pc); return; }
  }
  ShadowRange(self, (uintptr_t)p, n, w ? A_WRITE : 0, pc);
}
void RtBufferAccess(const void* p, size_t n, bool w) {
  if (!Hot() || !opt.races || (W && W->single)) return;
  RtGuard g;
  ShadowRange(self, (uintptr_t)p, n, w ? A_WRITE : 0, __builtin_return_address(0));
}
// Copies from and to a file mapping are visible operations; copies to it are torn in two.
static inline bool MapPoint(const void* p) {
  if (!RtMaybeMap(p) || !Hot() || !W || W->single || !RtMapBase((uintptr_t)p)) return false;
  RtIoPoint();
  return true;
}

// ------------------------------------------------------------------ failure
static std::string FnName(const void* pc) {
  // The outermost tkrzw function name of the inline chain, without parameters: stable under edits.
  char cmd[256];
  snprintf(cmd, sizeof(cmd), "addr2line -Cfie /proc/%d/exe %p 2>/dev/null", (int)getpid(),
           (void*)((uintptr_t)pc - 1 - RtExeBase()));
  FILE* f = popen(cmd, "r");
  std::string best;
  if (f) {
    char line[2048];
    int i = 0;
    while (fgets(line, sizeof(line), f)) {
      if (i++ % 2) continue;
      std::string s(line);
      while (!s.empty() && s.back() == '\n') s.pop_back();
      if (s.find("tkrzw::") != std::string::npos || best.empty()) {
        size_t p = s.find('(');
        best = s.substr(0, p);
      }
    }
    pclose(f);
  }
  return best;
}

static std::string ScheduleText() {
  std::string s = std::to_string(opt.bound) + ":";
  for (auto& p : W->points) s += std::to_string(p.chosen) + ",";
  return s;
}

[[noreturn]] static void FailNow(const std::string& id, const std::string& what) {
  in_rt++;
  active = false;
  std::string full = what;
  full += "\nscenario: " + scenario_name + "\nschedule: " + ScheduleText();
  full += "\nhistory:";
  for (auto& e : W->hist) {
    char b[64];
    snprintf(b, sizeof(b), "\n  T%d [%ld,%ld] op%d ", e.thread, e.inv, e.res, e.op);
    full += b + e.a + " " + e.b + " -> " + e.r;
  }
  for (auto* t : W->thr) {
    full += "\nthread " + std::to_string(t->tid) + ": " + st_names[t->st];
  }
  RtDie(id, full, scenario_name, ScheduleText());
}

void Fail(const std::string& what) {
  if (W == nullptr) RtDie(what, what, scenario_name, "");
  FailNow(scenario_name + ": " + what, what);
}

static std::set<std::pair<const void*, const void*>>* seen_races = nullptr;
static void ReportRace(Thr* t, const Access& o, uintptr_t addr, int flags, const void* pc) {
  in_rt++;
  if (!seen_races) seen_races = new std::set<std::pair<const void*, const void*>>();
  if (seen_races->count({o.pc, pc})) { in_rt--; return; }
  seen_races->insert({o.pc, pc});
  const bool was = active;
  active = false;
  std::string f1 = FnName(o.pc), f2 = FnName(pc);
  std::string a = std::min(f1, f2), b = std::max(f1, f2);
  std::string id = std::string(o.flags & A_FREED ? "use-after-free " : "race ") + a + " / " + b;
  if (RtIsKnown(id)) {
    active = was;
    in_rt--;
    return;
  }
  std::string what = id + "\n  " + (o.flags & A_FREED ? "freed" : o.flags & A_WRITE ? "write" : "read") +
      (o.flags & A_ATOMIC ? " (atomic)" : "") + " by thread " + std::to_string(o.tid) + " at " + Symbolize(o.pc) +
      "\n  " + (flags & A_WRITE ? "write" : "read") + (flags & A_ATOMIC ? " (atomic)" : "") +
      " by thread " + std::to_string(t->tid) + " at " + Symbolize(pc);
  if (getenv("MC_RACES_CONTINUE")) {
    fprintf(stderr, "RACE %s\n", what.c_str());
    active = was;
    in_rt--;
    return;
  }
  active = was;
  FailNow(id, what);
}

// ------------------------------------------------------------------ scheduling
static bool EnabledT(Thr* t) {
  switch (t->st) {
    case RUN: return !t->yielded || W->write_ver != t->yield_ver;
    case W_MUTEX: return W->mutexes[t->obj].owner < 0;
    case W_RD: { auto& r = W->rws[t->obj]; return r.writer < 0; }
    case W_WR: { auto& r = W->rws[t->obj]; return r.writer < 0 && r.readers == 0; }
    case W_JOIN: return ((Thr*)t->obj)->st == DONE;
    case W_ONCE: return *(volatile int*)t->obj != 1;
    default: return false;
  }
}

static bool g_nosched_all = false;
void NoSched(bool on) { if (self) self->nosched += on ? 1 : -1; }

static void SwitchTo(Thr* cur, Thr* nxt) {
  if (cur == nxt) return;
  nxt->sem.Post();
  if (cur->st != DONE) {
    cur->sem.Wait();
  }
}

static void WakeTimed(Thr* t) {
  if (t->deadline > W->vtime) W->vtime = t->deadline;
  t->timedout = true;
  if (t->st == W_COND) { t->st = W_MUTEX; t->obj = t->obj2; }
  else t->st = RUN;
  t->timed = false;
}

// `cur` has reached a scheduling point (RUN and not yielded), or it is blocked, yielded or done.
static void Schedule(Thr* cur) {
  World& w = *W;
  w.steps++;
  struct Cand { Thr* t; bool timeout; bool spurious = false; };
  Cand cands[2 * MAXT];
  constexpr uint64_t FAR = 3600ull * 1000000000ull;   // longer time-outs count as unlimited
  int n = 0;
  const bool cur_ok = cur->st == RUN && !cur->yielded;
  if (cur_ok && cur->nosched) return;
  if (w.steps > opt.max_steps) w.cutting = true;
  if (w.steps > opt.max_steps * 8 + 1000000) {
    Fail("livelock: the threads do not terminate under fair scheduling");
  }
  const int budget = w.cutting ? 0 : opt.bound - w.preemptions;
  if (cur_ok) {
    if (budget < 1) return;
    cands[n++] = {cur, false};
    for (auto* t : w.thr) {
      if (t == cur) continue;
      if (EnabledT(t)) cands[n++] = {t, false};
      else if (t->timed && t->deadline < w.vtime + FAR) cands[n++] = {t, true};
      if (opt.spurious && t->st == W_COND && W->mutexes[t->obj2].owner < 0) cands[n++] = {t, false, true};
    }
  } else {
    for (auto* t : w.thr) if (!(t->st == RUN && t->yielded) && EnabledT(t)) cands[n++] = {t, false};
    if (n == 0) {
      for (auto* t : w.thr) if (EnabledT(t)) cands[n++] = {t, false};
    }
    if (n == 0) {
      Thr* best = nullptr;
      for (auto* t : w.thr) if (t->timed && t->deadline < w.vtime + FAR && (!best || t->deadline < best->deadline)) best = t;
      if (best) cands[n++] = {best, true};
    }
    if (n == 0) {
      const int k = w.thr.size();
      for (int i = 1; i <= k && n == 0; i++) {
        Thr* t = w.thr[(w.rr + i) % k];
        if (t->st == RUN) { cands[n++] = {t, false}; w.rr = t->tid; }
      }
      if (n) {
        if (++w.idle_rounds > 4000) Fail("livelock: every thread spins and nothing changes");
      }
    } else {
      w.idle_rounds = 0;
    }
    if (n == 0) {
      bool all_done = true;
      for (auto* t : w.thr) if (t->st != DONE) all_done = false;
      if (all_done) return;
      std::string s = "deadlock:";
      for (auto* t : w.thr) if (t->st != DONE) s += " T" + std::to_string(t->tid) + "=" + st_names[t->st];
      Fail(s);
    }
  }
  int pick = 0;
  if (n > 1 && !w.cutting) {
    const size_t i = w.points.size();
    if (i < w.prefix.size()) {
      pick = w.prefix[i];
      if (pick >= n) { diverged++; pick = 0; }
    }
    w.points.push_back({n, pick});
    w.choice_points++;
    if (cur_ok && pick != 0) w.preemptions++;
  } else if (n > 1) {
    pick = w.rr++ % n;
  }
  Cand c = cands[pick];
  if (c.timeout) {
    WakeTimed(c.t);
    if (!EnabledT(c.t)) {   // a timed out condition wait still has to get its mutex
      Schedule(cur);
      return;
    }
  }
  if (c.spurious) { c.t->st = W_MUTEX; c.t->obj = c.t->obj2; c.t->timed = false; c.t->timedout = false; }
  c.t->yielded = false;
  SwitchTo(cur, c.t);
}

void RtPoint() {
  if (!Hot() || !self) return;
  RtGuard g;
  if (W->thr.size() < 2 && false) return;
  Schedule(self);
}
void RtIoPoint() {
  if (!Hot() || !opt.io_points) return;
  RtGuard g;
  self->spin_n = 0;
  W->write_ver++;
  Schedule(self);
}

static void Yield() {
  self->yielded = true;
  self->yield_ver = W->write_ver;
  Schedule(self);
  self->yielded = false;
}

static void BlockUntil(St st, void* obj) {
  // The thread is not enabled until the predicate of `st` holds; on return it holds.
  do {
    self->st = st;
    self->obj = obj;
    if (EnabledT(self)) { /* may run at once, but let the scheduler choose */ }
    Schedule(self);
  } while (!EnabledT(self));
  self->st = RUN;
  self->obj = nullptr;
}

int Choose(int n) {
  if (!active || n < 2) return 0;
  World& w = *W;
  int pick = 0;
  const size_t i = w.points.size();
  if (i < w.prefix.size()) { pick = w.prefix[i]; if (pick >= n) { diverged++; pick = 0; } }
  w.points.push_back({n, pick});
  return pick;
}

int BeginOp(int op, const std::string& a, const std::string& b) {
  in_rt++;
  W->hist.push_back(Event{self->tid, Now(), -1, op, a, b, ""});
  int id = W->hist.size() - 1;
  in_rt--;
  return id;
}
void EndOp(int id, const std::string& r) {
  in_rt++;
  W->hist[id].r = r;
  W->hist[id].res = Now();
  in_rt--;
}
const std::vector<Event>& History() { return W->hist; }
void Outcome(const std::string& text) { in_rt++; W->outcome += text; in_rt--; }
void RtQuiesce() { active = false; }
std::string RtScenario() { return scenario_name; }
std::string RtSchedule() { return W ? ScheduleText() : ""; }

// ------------------------------------------------------------------ atomics
enum AKind { AK_LOAD, AK_STORE, AK_RMW };

static inline void AtomPre(const void* addr, const void* pc) {
  // Repeating the same unsuccessful operation at the same place is a spin: treated as a yield.
  Thr* t = self;
  if (t->spin_addr == addr && t->spin_pc == pc) {
    if (t->spin_n >= 3) {
      t->spin_n = 0;
      Yield();
      return;
    }
  }
  Schedule(t);
}
static inline void AtomSync(void* addr, size_t n, const void* pc, int mo, AKind k, bool success = true) {
  Thr* t = self;
  if (W->single) return;
  // Recorded before the release increments the clock: whoever acquires it is ordered after this access.
  if (opt.races) ShadowRange(t, (uintptr_t)addr, n, A_ATOMIC | (k != AK_LOAD && success ? A_WRITE : 0), pc);
  const bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME;
  const bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if (k == AK_LOAD || k == AK_RMW) {
    auto it = W->atoms.find(addr);
    if (it != W->atoms.end()) {
      if (acq) t->vc.Join(it->second);
      else t->fence_acq.Join(it->second);
    }
  }
  if (!success) return;
  if (k == AK_STORE) {
    VC& v = W->atoms[addr];
    if (rel) v = t->vc;
    else if (t->has_fence_rel) v = t->fence_rel;
    else v = VC();
    t->vc.c[t->tid]++;
  } else if (k == AK_RMW) {
    VC& v = W->atoms[addr];
    if (rel) v.Join(t->vc);
    else if (t->has_fence_rel) v.Join(t->fence_rel);
    t->vc.c[t->tid]++;
  }
}
static inline void AtomPost(const void* addr, size_t n, bool changed, AKind k, const void* pc) {
  Thr* t = self;
  if (changed) {
    W->write_ver++;
    t->spin_n = 0;
    t->spin_addr = nullptr;
  } else {
    if (t->spin_addr == addr && t->spin_pc == pc) t->spin_n++;
    else { t->spin_addr = addr; t->spin_pc = pc; t->spin_n = 0; }
  }
}

template <class T> static T ALoad(const volatile T* a, int mo, const void* pc) {
  if (!Hot()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
  RtGuard g;
  AtomPre((const void*)a, pc);
  T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);
  AtomSync((void*)a, sizeof(T), pc, mo, AK_LOAD);
  AtomPost((const void*)a, sizeof(T), false, AK_LOAD, pc);
  return v;
}
template <class T> static void AStore(volatile T* a, T v, int mo, const void* pc) {
  if (!Hot()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }
  RtGuard g;
  AtomPre((const void*)a, pc);
  T o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);
  AtomSync((void*)a, sizeof(T), pc, mo, AK_STORE);
  AtomPost((const void*)a, sizeof(T), o != v, AK_STORE, pc);
}
template <class T, class F> static T ARmw(volatile T* a, int mo, const void* pc, F f) {
  if (!Hot()) {
    T o = __atomic_load_n(a, __ATOMIC_SEQ_CST);
    while (!__atomic_compare_exchange_n(a, &o, f(o), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
    return o;
  }
  RtGuard g;
  AtomPre((const void*)a, pc);
  T o = __atomic_load_n(a, __ATOMIC_SEQ_CST);
  T nv = f(o);
  __atomic_store_n(a, nv, __ATOMIC_SEQ_CST);
  AtomSync((void*)a, sizeof(T), pc, mo, AK_RMW);
  AtomPost((const void*)a, sizeof(T), o != nv, AK_RMW, pc);
  return o;
}
template <class T> static int ACas(volatile T* a, T* e, T v, int mo, int fmo, const void* pc) {
  if (!Hot()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  RtGuard g;
  AtomPre((const void*)a, pc);
  T o = __atomic_load_n(a, __ATOMIC_SEQ_CST);
  if (o == *e) {
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
    AtomSync((void*)a, sizeof(T), pc, mo, AK_RMW);
    AtomPost((const void*)a, sizeof(T), o != v, AK_RMW, pc);
    return 1;
  }
  *e = o;
  AtomSync((void*)a, sizeof(T), pc, fmo, AK_RMW, false);
  AtomPost((const void*)a, sizeof(T), false, AK_LOAD, pc);
  return 0;
}

// ------------------------------------------------------------------ threads
static void ThreadDone(Thr* t) {
  RtGuard g;
  t->st = DONE;
  W->write_ver++;
  Schedule(t);
}

static void* Trampoline(void* p) {
  Thr* t = (Thr*)p;
  in_rt = 1;
  t->sem.Wait();
  pthread_attr_t at;
  void* lo = nullptr;
  size_t sz = 0;
  if (pthread_getattr_np(pthread_self(), &at) == 0) {
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
  }
  t->stack_lo = (uintptr_t)lo;
  t->stack_hi = (uintptr_t)lo + sz;
  self = t;
  in_rt = 0;
  void* r = t->fn(t->arg);
  in_rt = 1;
  t->ret = r;
  self = nullptr;
  Thr* me = t;
  me->st = DONE;
  W->write_ver++;
  // Hand over without becoming inert: Schedule needs no self.
  Schedule(me);
  return r;
}

template <class F> static F Real(const char* name) {
  static_assert(sizeof(F) == sizeof(void*), "");
  return (F)dlsym(RTLD_NEXT, name);
}

static void NewWorld() {
  if (W) {
    for (size_t i = 0; i < W->thr.size(); i++) delete W->thr[i];
    delete W;
  }
  W = new World();
  ShadowReset();
}

static void RunOnce(const std::vector<int>& prefix, const std::function<void()>& body) {
  in_rt++;
  NewWorld();
  W->prefix = prefix;
  Thr* t = new Thr();
  t->tid = 0;
  t->vc.c[0] = 1;
  static void* lo = nullptr;
  static size_t sz = 0;
  pthread_attr_t at;
  if (lo == nullptr && pthread_getattr_np(pthread_self(), &at) == 0) {
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
  }
  t->stack_lo = (uintptr_t)lo;
  t->stack_hi = (uintptr_t)lo + sz;
  W->thr.push_back(t);
  self = t;
  active = true;
  in_rt--;
  body();
  in_rt++;
  // Let the remaining threads finish.
  while (true) {
    bool all = true;
    for (auto* x : W->thr) if (x != t && x->st != DONE) all = false;
    if (all) break;
    Thr* pend = nullptr;
    for (auto* x : W->thr) if (x != t && x->st != DONE) pend = x;
    t->st = W_JOIN;
    t->obj = pend;
    Schedule(t);
    t->st = RUN;
  }
  active = false;
  self = nullptr;
  static auto real_join = Real<int (*)(pthread_t, void**)>("pthread_join");
  for (auto* x : W->thr) {
    if (x != t && !x->joined && !x->detached) real_join(x->pt, nullptr);
  }
  in_rt--;
}

ExploreResult Explore(const std::string& scenario, const ExploreOptions& o,
                      const std::function<void()>& body) {
  ExploreResult res;
  opt = o;
  scenario_name = scenario;
  const double start = RtWall();
  const int maxb = o.bound;
  bool stop = false;
  for (int b = 0; b <= maxb && !stop; b++) {
    opt.bound = b;
    std::vector<int> prefix;
    bool first = true;
    bool done = false;
    while (!done) {
      if (RtWall() - start > o.time_limit) { stop = true; break; }
      const bool mine_first = !first || o.worker == 0;
      RunOnce(prefix, body);
      res.max_steps_seen = std::max(res.max_steps_seen, W->steps);
      if (mine_first && (b == 0 || W->preemptions == b)) {
        res.executions++;
        res.steps += W->steps;
        res.points += W->choice_points;
        if (W->cutting) res.cut++;
        if (res.outcomes.size() < 20000) res.outcomes[W->outcome]++;
      }
      first = false;
      // Next path in depth-first order.
      std::vector<int> path;
      std::vector<int> ns;
      for (auto& p : W->points) { path.push_back(p.chosen); ns.push_back(p.n); }
      int firstnz = -1;
      for (size_t i = 0; i < path.size(); i++) if (path[i]) { firstnz = i; break; }
      done = true;
      for (int i = (int)path.size() - 1; i >= 0; i--) {
        const bool head = firstnz < 0 || i <= firstnz;   // this would be the first deviation
        int c = path[i] + 1;
        if (head) {
          while (c < ns[i] && (int)(((unsigned)i * 2654435761u + c * 40503u) >> 8) % o.num_workers * 1u !=
                                  (unsigned)o.worker % o.num_workers) c++;
        }
        if (c < ns[i]) {
          path.resize(i);
          path.push_back(c);
          prefix = path;
          done = false;
          break;
        }
      }
    }
    if (!stop) res.bound_done = b;
  }
  res.complete = !stop;
  if (diverged) { StatMax("diverged", diverged); }
  return res;
}

void Replay(const std::string& scenario, const std::vector<int>& choices,
            const std::function<void()>& body, const ExploreOptions& o) {
  opt = o;
  scenario_name = scenario;
  replaying = true;
  // The bound a choice list was found under: preemptions are not limited below its own.
  opt.bound = o.bound;
  RunOnce(choices, body);
}

void RunScenario(const std::string& name, int bound, const std::function<void()>& body, double share,
                 ExploreOptions o) {
  Args& a = args();
  if (!a.only.empty() && a.only != name) return;
  o.bound = bound;
  if (!a.replay.empty()) {
    std::vector<int> ch;
    size_t p = a.replay.find(':');
    o.bound = atoi(a.replay.c_str());
    std::string t = p == std::string::npos ? "" : a.replay.substr(p + 1);
    for (size_t i = 0; i < t.size();) {
      size_t c = t.find(',', i);
      if (c == std::string::npos) break;
      ch.push_back(atoi(t.substr(i, c - i).c_str()));
      i = c + 1;
    }
    Replay(name, ch, body, o);
    FinishReport();
  }
  o.worker = a.worker;
  o.num_workers = a.num_workers;
  o.time_limit = share > 0 ? share : a.time;
  const double st = RtWall();
  ExploreResult r = Explore(name, o, body);
  Stat("traces", r.executions);
  Stat("transitions", r.steps);
  Stat("states", r.points);
  Stat("executions " + name, r.executions);
  Stat("cut", r.cut);
  Stat("scenarios", 1.0 / a.num_workers);
  StatMax("outcomes " + name, r.outcomes.size());
  StatMax("seconds " + name, RtWall() - st);
  StatMax("longest execution", r.max_steps_seen);
  if (!r.complete) {
    Stat("incomplete", 1);
    Note(name + ": time ran out, preemption bound " + std::to_string(r.bound_done) + " of " +
         std::to_string(bound) + " explored completely by a worker");
  }
  if (a.worker == 0 && !r.outcomes.empty()) {
    Sample(name + " (bound " + std::to_string(bound) + "): " + r.outcomes.begin()->first.substr(0, 200));
  }
}

uint64_t RtVirtualNs() { return W->vtime; }

}  // namespace mc

using namespace mc;

// ==================================================================== interposed functions
extern "C" {

// ---- memory
void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (active && self && in_rt == 0 && p && !W->single) { in_rt++; ShadowClear((uintptr_t)p, malloc_usable_size(p)); in_rt--; }
  return p;
}
void* calloc(size_t a, size_t b) {
  void* p = __libc_calloc(a, b);
  if (active && self && in_rt == 0 && p && !W->single) { in_rt++; ShadowClear((uintptr_t)p, malloc_usable_size(p)); in_rt--; }
  return p;
}
static void OnFree(void* p, const void* pc) {
  if (!(active && self && in_rt == 0 && p && opt.races && !W->single)) return;
  in_rt++;
  size_t n = std::min<size_t>(malloc_usable_size(p), 2048);
  ShadowRange(self, (uintptr_t)p, n, A_WRITE, pc);
  for (uintptr_t k = (uintptr_t)p >> 3; k < ((uintptr_t)p + n) >> 3; k++) {
    Cell* c = ShadowFind(k, true);
    if (!c) continue;
    memset(c->a, 0, sizeof(c->a));
    c->a[0] = Access{self->vc.c[self->tid], (uint8_t)self->tid, 0xff, A_USED | A_FREED, 0, pc};
  }
  in_rt--;
}
void free(void* p) {
  OnFree(p, __builtin_return_address(0));
  __libc_free(p);
}
void* realloc(void* p, size_t n) {
  if (active && self && in_rt == 0 && p) OnFree(p, __builtin_return_address(0));
  void* q = __libc_realloc(p, n);
  if (active && self && in_rt == 0 && q && !W->single) { in_rt++; ShadowClear((uintptr_t)q, malloc_usable_size(q)); in_rt--; }
  return q;
}
void* memalign(size_t a, size_t n) {
  void* p = __libc_memalign(a, n);
  if (active && self && in_rt == 0 && p && !W->single) { in_rt++; ShadowClear((uintptr_t)p, malloc_usable_size(p)); in_rt--; }
  return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) {
  *r = memalign(a, n);
  return *r ? 0 : ENOMEM;
}

// ---- threads
int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!Hot()) return real(pt, at, fn, arg);
  RtGuard g;
  if (W->thr.size() >= MAXT) Fail("the harness creates too many threads");
  W->single = false;
  Thr* t = new Thr();
  t->tid = W->thr.size();
  t->fn = fn;
  t->arg = arg;
  self->vc.c[self->tid]++;
  t->vc = self->vc;
  t->vc.c[t->tid] = 1;
  self->vc.c[self->tid]++;
  int rv = real(&t->pt, at, Trampoline, t);
  if (rv) { delete t; return rv; }
  *pt = t->pt;
  W->thr.push_back(t);
  W->write_ver++;
  Schedule(self);
  return 0;
}
static Thr* FindThr(pthread_t pt) {
  for (auto* t : W->thr) if (t->tid && !t->joined && pthread_equal(t->pt, pt)) return t;
  return nullptr;
}
int pthread_join(pthread_t pt, void** ret) {
  static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
  if (!Hot()) return real(pt, ret);
  RtGuard g;
  Thr* t = FindThr(pt);
  if (!t) return real(pt, ret);
  BlockUntil(W_JOIN, t);
  t->joined = true;
  self->vc.Join(t->vc);
  bool alone = self->tid == 0;
  for (auto* x : W->thr) if (x->tid && !(x->joined && x->st == DONE)) alone = false;
  if (alone) { W->single = true; ShadowReset(); }
  return real(pt, ret);
}
int pthread_detach(pthread_t pt) {
  static auto real = Real<int (*)(pthread_t)>("pthread_detach");
  if (Hot()) { RtGuard g; Thr* t = FindThr(pt); if (t) t->detached = true; }
  return real(pt);
}

// ---- mutexes
static void LockM(void* m) {
  Schedule(self);
  MutexS& s0 = W->mutexes[m];
  if (s0.owner == self->tid) {
    // Recursive mutexes are not used by this code base.
    BlockUntil(W_MUTEX, m);
  } else if (s0.owner >= 0) {
    BlockUntil(W_MUTEX, m);
  }
  MutexS& s = W->mutexes[m];
  s.owner = self->tid;
  self->vc.Join(s.vc);
  W->write_ver++;
  self->spin_n = 0;
}
static void UnlockM(void* m) {
  MutexS& s = W->mutexes[m];
  s.owner = -1;
  s.vc = self->vc;
  self->vc.c[self->tid]++;
  W->write_ver++;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!Hot()) return real(m);
  RtGuard g;
  LockM(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!Hot()) return real(m);
  RtGuard g;
  Schedule(self);
  MutexS& s = W->mutexes[m];
  if (s.owner >= 0) return EBUSY;
  s.owner = self->tid;
  self->vc.Join(s.vc);
  W->write_ver++;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!Hot()) return real(m);
  RtGuard g;
  UnlockM(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
  if (!Hot()) return real(m);
  RtGuard g;
  W->mutexes.erase(m);
  return 0;
}

// ---- condition variables
static int CondWait(void* c, void* m, bool timed, uint64_t deadline) {
  Thr* t = self;
  Schedule(t);   // what a notifier does without the mutex may come before the wait begins
  UnlockM(m);
  t->st = W_COND;
  t->obj = c;
  t->obj2 = m;
  t->timed = timed;
  t->deadline = deadline;
  t->timedout = false;
  Schedule(t);
  // Here the thread is W_MUTEX with a free mutex.
  while (W->mutexes[m].owner >= 0) { t->st = W_MUTEX; t->obj = m; Schedule(t); }
  t->st = RUN;
  t->timed = false;
  MutexS& s = W->mutexes[m];
  s.owner = t->tid;
  t->vc.Join(s.vc);
  W->write_ver++;
  const bool to = t->timedout;
  t->timedout = false;
  return to ? ETIMEDOUT : 0;
}
static void CondWake(void* c, bool all) {
  Schedule(self);
  std::vector<Thr*> ws;
  for (auto* t : W->thr) if (t->st == W_COND && t->obj == c) ws.push_back(t);
  W->write_ver++;
  if (ws.empty()) return;
  auto wake = [&](Thr* t) { t->st = W_MUTEX; t->obj = t->obj2; t->timed = false; t->timedout = false; };
  if (all) {
    for (auto* t : ws) wake(t);
  } else {
    wake(ws[W->cutting ? 0 : Choose(ws.size())]);
  }
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!Hot()) return real(c, m);
  RtGuard g;
  return CondWait(c, m, false, 0);
}
static uint64_t TsNs(const struct timespec* ts) { return ts->tv_sec * 1000000000ull + ts->tv_nsec; }
static constexpr uint64_t VBASE = 1700000000ull * 1000000000ull;
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
  if (!Hot()) return real(c, m, ts);
  RtGuard g;
  return CondWait(c, m, true, TsNs(ts) > VBASE ? TsNs(ts) - VBASE : TsNs(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
  if (!Hot()) return real(c, m, clk, ts);
  RtGuard g;
  return CondWait(c, m, true, TsNs(ts) > VBASE ? TsNs(ts) - VBASE : TsNs(ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!Hot()) return real(c);
  RtGuard g;
  CondWake(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!Hot()) return real(c);
  RtGuard g;
  CondWake(c, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
  if (!Hot()) return real(c);
  return 0;
}

// ---- rwlocks
static int RdLock(void* l, bool tryit) {
  Schedule(self);
  if (W->rws[l].writer >= 0) {
    if (tryit) return EBUSY;
    BlockUntil(W_RD, l);
  }
  RwS& r = W->rws[l];
  r.readers++;
  self->vc.Join(r.vc);
  W->write_ver++;
  return 0;
}
static int WrLock(void* l, bool tryit) {
  Schedule(self);
  { RwS& r = W->rws[l];
    if (r.writer >= 0 || r.readers) {
      if (tryit) return EBUSY;
      BlockUntil(W_WR, l);
    } }
  RwS& r = W->rws[l];
  r.writer = self->tid;
  self->vc.Join(r.vc);
  self->vc.Join(r.rvc);
  W->write_ver++;
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
  if (!Hot()) return real(l);
  RtGuard g;
  return RdLock(l, false);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
  if (!Hot()) return real(l);
  RtGuard g;
  return WrLock(l, false);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
  if (!Hot()) return real(l);
  RtGuard g;
  return RdLock(l, true);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
  if (!Hot()) return real(l);
  RtGuard g;
  return WrLock(l, true);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
  if (!Hot()) return real(l);
  RtGuard g;
  RwS& r = W->rws[l];
  if (r.writer == self->tid) {
    r.writer = -1;
    r.vc = self->vc;
    r.rvc = VC();
  } else {
    r.readers--;
    r.rvc.Join(self->vc);
  }
  self->vc.c[self->tid]++;
  W->write_ver++;
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_destroy");
  if (!Hot()) return real(l);
  RtGuard g;
  W->rws.erase(l);
  return 0;
}

// ---- once
// The state is in the control variable itself (0: not run, 1: running, 2: done, as glibc has it), so that
// one on the heap starts anew with each object.
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  static auto real = Real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
  if (!Hot()) return real(o, fn);
  volatile int* st = (volatile int*)o;
  { RtGuard g;
    Schedule(self);
    if (*st == 1) BlockUntil(W_ONCE, o);
    if (*st == 2) { if (W->once_vc.count(o)) self->vc.Join(W->once_vc[o]); return 0; }
    *st = 1; }
  try {
    fn();
  } catch (...) {
    RtGuard g;
    *st = 0;
    W->write_ver++;
    throw;
  }
  { RtGuard g;
    *st = 2;
    W->once_vc[o] = self->vc;
    self->vc.c[self->tid]++;
    W->write_ver++; }
  return 0;
}

// ---- function-local statics
int __cxa_guard_acquire(uint64_t* g) {
  volatile unsigned char* b = (volatile unsigned char*)g;
  if (!Hot()) {
    if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
    while (__atomic_exchange_n(&b[1], 1, __ATOMIC_ACQ_REL)) {
      if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
      raw_syscall(SYS_sched_yield, 0, 0, 0);
    }
    if (b[0]) { b[1] = 0; return 0; }
    return 1;
  }
  RtGuard gg;
  Schedule(self);
  while (!b[0] && b[1]) Yield();
  if (b[0]) { auto it = W->atoms.find(g); if (it != W->atoms.end()) self->vc.Join(it->second); return 0; }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  volatile unsigned char* b = (volatile unsigned char*)g;
  __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
  b[1] = 0;
  if (!Hot()) return;
  RtGuard gg;
  W->atoms[g] = self->vc;
  self->vc.c[self->tid]++;
  W->write_ver++;
}
void __cxa_guard_abort(uint64_t* g) {
  ((volatile unsigned char*)g)[1] = 0;
  if (Hot()) W->write_ver++;
}

// ---- yields, sleeps, time
int sched_yield(void) {
  if (!Hot()) { raw_syscall(SYS_sched_yield, 0, 0, 0); return 0; }
  RtGuard g;
  Yield();
  return 0;
}
static void SleepNs(uint64_t ns) {
  Thr* t = self;
  t->st = W_SLEEP;
  t->timed = true;
  t->deadline = W->vtime + ns;
  Schedule(t);
  t->st = RUN;
  t->timed = false;
  t->timedout = false;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (!Hot()) return raw_syscall(SYS_nanosleep, (long)ts, (long)rem, 0) < 0 ? -1 : 0;
  RtGuard g;
  SleepNs(TsNs(ts));
  return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec* ts, struct timespec* rem) {
  if (!Hot()) return -raw_syscall(SYS_clock_nanosleep, clk, flags, (long)ts, (long)rem);
  RtGuard g;
  uint64_t v = TsNs(ts);
  if (flags & TIMER_ABSTIME) { v = v > VBASE ? v - VBASE : v; v = v > W->vtime ? v - W->vtime : 0; }
  SleepNs(v);
  return 0;
}
int usleep(useconds_t us) {
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
int clock_gettime(clockid_t clk, struct timespec* ts) {
  if (!Hot()) return raw_syscall(SYS_clock_gettime, clk, (long)ts, 0) < 0 ? -1 : 0;
  W->vtime += 1000;
  uint64_t v = W->vtime + VBASE;
  ts->tv_sec = v / 1000000000ull;
  ts->tv_nsec = v % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
  struct timespec ts;
  if (!Hot()) {
    raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts, 0);
  } else {
    clock_gettime(CLOCK_REALTIME, &ts);
  }
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

// ---- futex (std::future, function-local statics)
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && Hot()) {
    RtGuard g;
    const int op = b & 127 & ~FUTEX_CLOCK_REALTIME;
    Schedule(self);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (__atomic_load_n((int*)a, __ATOMIC_SEQ_CST) != (int)c) { errno = EAGAIN; return -1; }
      Thr* t = self;
      t->st = W_FUTEX;
      t->obj = (void*)a;
      t->timed = d != 0;
      if (d) {
        uint64_t v = TsNs((struct timespec*)d);
        t->deadline = v > VBASE ? v - VBASE : (op == FUTEX_WAIT ? W->vtime + v : v);
      }
      t->timedout = false;
      Schedule(t);
      t->st = RUN;
      t->timed = false;
      if (t->timedout) { t->timedout = false; errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int woken = 0;
      for (auto* t : W->thr) {
        if (t->st == W_FUTEX && t->obj == (void*)a && woken < (int)c) {
          t->st = RUN;
          t->timed = false;
          woken++;
        }
      }
      W->write_ver++;
      return woken;
    }
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

// ==================================================================== ThreadSanitizer ABI
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void*) { PlainAccess(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { PlainAccess(p, 8, false, PC); }

#define RW(n)                                                                              \
  void __tsan_read##n(void* p) { PlainAccess(p, n, false, PC); }                           \
  void __tsan_write##n(void* p) { RtStoreHook(p, n); PlainAccess(p, n, true, PC); }        \
  void __tsan_read_write##n(void* p) { RtStoreHook(p, n); PlainAccess(p, n, true, PC); }   \
  void __tsan_unaligned_read##n(void* p) { PlainAccess(p, n, false, PC); }                 \
  void __tsan_unaligned_write##n(void* p) { RtStoreHook(p, n); PlainAccess(p, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void* p) { RtStoreHook(p, n); PlainAccess(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { PlainAccess(p, n, false, PC); }                  \
  void __tsan_volatile_write##n(void* p) { RtStoreHook(p, n); PlainAccess(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { PlainAccess(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { RtStoreHook(p, n); PlainAccess(p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  MapPoint(s);
  PlainAccess(s, n, false, PC);
  const bool tear = MapPoint(d) && n > 1 && ((char*)d + n <= (const char*)s || (const char*)s + n <= (char*)d);
  PlainAccess(d, n, true, PC);
  if (tear && !rt_fs_maps) {
    memmove(d, s, n / 2);
    RtIoPoint();
    memmove((char*)d + n / 2, (const char*)s + n / 2, n - n / 2);
    PlainAccess(d, n, true, PC);
    return d;
  }
  RtStoreHook(d, n);
  memcpy(d, s, n);
  RtStoreDone(d, n);
  return d;
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  MapPoint(s);
  PlainAccess(s, n, false, PC);
  const bool tear = MapPoint(d) && n > 1 && ((char*)d + n <= (const char*)s || (const char*)s + n <= (char*)d);
  PlainAccess(d, n, true, PC);
  if (tear && !rt_fs_maps) {
    memmove(d, s, n / 2);
    RtIoPoint();
    memmove((char*)d + n / 2, (const char*)s + n / 2, n - n / 2);
    PlainAccess(d, n, true, PC);
    return d;
  }
  RtStoreHook(d, n);
  memmove(d, s, n);
  RtStoreDone(d, n);
  return d;
}
void* __tsan_memset(void* d, int c, size_t n) {
  PlainAccess(d, n, true, PC);
  RtStoreHook(d, n);
  memset(d, c, n);
  RtStoreDone(d, n);
  return d;
}

typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
static int MapMo(int mo) { return mo; }
#define ATOM(n)                                                                               \
  a##n __tsan_atomic##n##_load(const volatile a##n* a, int mo) { return ALoad(a, mo, PC); }   \
  void __tsan_atomic##n##_store(volatile a##n* a, a##n v, int mo) { AStore(a, v, mo, PC); }   \
  a##n __tsan_atomic##n##_exchange(volatile a##n* a, a##n v, int mo) {                        \
    return ARmw(a, mo, PC, [v](a##n) { return v; }); }                                        \
  a##n __tsan_atomic##n##_fetch_add(volatile a##n* a, a##n v, int mo) {                       \
    return ARmw(a, mo, PC, [v](a##n o) { return (a##n)(o + v); }); }                          \
  a##n __tsan_atomic##n##_fetch_sub(volatile a##n* a, a##n v, int mo) {                       \
    return ARmw(a, mo, PC, [v](a##n o) { return (a##n)(o - v); }); }                          \
  a##n __tsan_atomic##n##_fetch_and(volatile a##n* a, a##n v, int mo) {                       \
    return ARmw(a, mo, PC, [v](a##n o) { return (a##n)(o & v); }); }                          \
  a##n __tsan_atomic##n##_fetch_or(volatile a##n* a, a##n v, int mo) {                        \
    return ARmw(a, mo, PC, [v](a##n o) { return (a##n)(o | v); }); }                          \
  a##n __tsan_atomic##n##_fetch_xor(volatile a##n* a, a##n v, int mo) {                       \
    return ARmw(a, mo, PC, [v](a##n o) { return (a##n)(o ^ v); }); }                          \
  a##n __tsan_atomic##n##_fetch_nand(volatile a##n* a, a##n v, int mo) {                      \
    return ARmw(a, mo, PC, [v](a##n o) { return (a##n)~(o & v); }); }                         \
  int __tsan_atomic##n##_compare_exchange_strong(volatile a##n* a, a##n* e, a##n v, int mo, int f) { \
    return ACas(a, e, v, mo, f, PC); }                                                        \
  int __tsan_atomic##n##_compare_exchange_weak(volatile a##n* a, a##n* e, a##n v, int mo, int f) {   \
    return ACas(a, e, v, mo, f, PC); }                                                        \
  a##n __tsan_atomic##n##_compare_exchange_val(volatile a##n* a, a##n e, a##n v, int mo, int f) {    \
    ACas(a, &e, v, mo, f, PC); return e; }
ATOM(8) ATOM(16) ATOM(32) ATOM(64)
void __tsan_atomic_thread_fence(int mo) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  if (!Hot()) return;
  if (mo == __ATOMIC_ACQUIRE || mo >= __ATOMIC_ACQ_REL) self->vc.Join(self->fence_acq);
  if (mo == __ATOMIC_RELEASE || mo >= __ATOMIC_ACQ_REL) { self->fence_rel = self->vc; self->has_fence_rel = true; self->vc.c[self->tid]++; }
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"
