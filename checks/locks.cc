// Mutual exclusion, sharing, upgrade/downgrade and ordering of the lock primitives, under every
// schedule up to a preemption bound. A lock that lets two threads in, or whose acquire does not
// order memory, shows as a data race or a broken invariant on the plain data it guards.
#include "conc.h"
#include "tkrzw_thread_util.h"
#include "tkrzw_lib_common.h"
#include "tkrzw_str_util.h"
#include <mutex>
#include <shared_mutex>
using namespace tkrzw;
using mc::Fail;

struct Guarded {   // plain data: every access outside of the lock is a race
  int a = 0, b = 0;
  void Write(int v) { a += v; b += v; }
  void Check() { if (a != b) Fail("a reader sees half of an update"); }
};

// Occupancy kept outside of the instrumented world: no scheduling points, no races.
struct Occ {
  int w = 0, r = 0, maxr = 0;
  NOSAN void InW() { if (w || r) Fail("exclusive ownership is shared"); w++; }
  NOSAN void OutW() { w--; }
  NOSAN void InR() { if (w) Fail("shared ownership beside exclusive ownership"); r++; if (r > maxr) maxr = r; }
  NOSAN void OutR() { r--; }
};

template <class M> void Excl(const std::string& n, int bound) {
  mc::RunScenario(n + ".excl2", bound + 1, [] {
    M m; Guarded g; Occ o;
    auto f = [&] { for (int i = 0; i < 2; i++) { m.lock(); o.InW(); g.Write(1); o.OutW(); m.unlock(); } };
    Par({f, f});
    if (g.a != 4 || g.b != 4) Fail("an update is lost");
    if (!m.try_lock()) Fail("try_lock fails on a free mutex");
    m.unlock();
  });
  mc::RunScenario(n + ".excl3", bound, [] {
    M m; Guarded g; Occ o;
    auto f = [&] { m.lock(); o.InW(); g.Write(1); o.OutW(); m.unlock(); };
    Par({f, f, f});
    if (g.a != 3) Fail("an update is lost");
  });
  mc::RunScenario(n + ".try", bound, [] {
    M m; Guarded g; Occ o;
    int got = 0;
    auto f = [&] { m.lock(); o.InW(); g.Write(1); o.OutW(); m.unlock(); };
    auto t = [&] { if (m.try_lock()) { o.InW(); g.Write(1); got++; o.OutW(); m.unlock(); } };
    Par({f, t, t});
    if (g.a != 1 + got) Fail("an update is lost");
    if (!m.try_lock()) Fail("try_lock fails on a free mutex");
    if (m.try_lock()) Fail("try_lock succeeds twice");
    m.unlock();
    mc::Outcome("try_lock successes " + std::to_string(got));
  });
}

template <class M> void Shared(const std::string& n, int bound) {
  mc::RunScenario(n + ".rw", bound, [] {
    M m; Guarded g; Occ o;
    auto w = [&] { m.lock(); o.InW(); g.Write(1); o.OutW(); m.unlock(); };
    auto r = [&] { m.lock_shared(); o.InR(); g.Check(); o.OutR(); m.unlock_shared(); };
    Par({w, r, r});
    mc::Outcome("readers inside " + std::to_string(o.maxr));
  });
  mc::RunScenario(n + ".wwr", bound, [] {
    M m; Guarded g; Occ o;
    auto w = [&] { m.lock(); o.InW(); g.Write(1); o.OutW(); m.unlock(); };
    auto r = [&] { for (int i = 0; i < 2; i++) { m.lock_shared(); o.InR(); g.Check(); o.OutR(); m.unlock_shared(); } };
    Par({w, w, r});
    if (g.a != 2) Fail("an update is lost");
  });
  mc::RunScenario(n + ".try_shared", bound, [] {
    M m; Guarded g; Occ o;
    int ok = 0;
    auto w = [&] { m.lock(); o.InW(); g.Write(1); o.OutW(); m.unlock(); };
    auto r = [&] { if (m.try_lock_shared()) { o.InR(); g.Check(); o.OutR(); m.unlock_shared(); } };
    auto tw = [&] { if (m.try_lock()) { o.InW(); g.Write(1); ok = 1; o.OutW(); m.unlock(); } };
    Par({w, r, r, tw});
    if (g.a != 1 + ok) Fail("an update is lost");
    // Whatever failed before, the mutex is free now.
    if (!m.try_lock()) Fail("try_lock fails on a free mutex");
    if (m.try_lock_shared()) Fail("try_lock_shared succeeds beside an exclusive owner");
    if (m.try_lock_shared()) Fail("try_lock_shared succeeds beside an exclusive owner");
    m.unlock();
    if (!m.try_lock_shared()) Fail("try_lock_shared fails on a free mutex");
    if (!m.try_lock_shared()) Fail("try_lock_shared fails beside a shared owner");
    if (m.try_lock()) Fail("try_lock succeeds beside shared owners");
    m.unlock_shared();
    if (m.try_lock()) Fail("try_lock succeeds beside a shared owner");
    m.unlock_shared();
    if (!m.try_lock()) Fail("try_lock fails on a free mutex");
    m.unlock();
  });
  // Readers must be able to be inside together: neither may depend on the other leaving.
  mc::RunScenario(n + ".together", bound, [] {
    M m;
    std::atomic<int> in(0);
    auto r = [&] { m.lock_shared(); in++; while (in.load() < 2) std::this_thread::yield(); m.unlock_shared(); };
    Par({r, r});
  });
}

template <class M> void Upgrade(const std::string& n, int bound) {
  mc::RunScenario(n + ".upgrade", bound, [] {
    M m; Guarded g; Occ o;
    int up = 0;
    auto u = [&] {
      m.lock_shared(); o.InR(); g.Check(); o.OutR();
      if (m.try_upgrade(false)) { o.InW(); g.Write(1); up++; o.OutW(); m.unlock(); }
      else { o.InR(); g.Check(); o.OutR(); m.unlock_shared(); }
    };
    auto w = [&] { m.lock(); o.InW(); g.Write(1); o.OutW(); m.unlock(); };
    Par({u, u, w});
    if (g.a != 1 + up) Fail("an update is lost");
    mc::Outcome("upgrades " + std::to_string(up));
  });
  mc::RunScenario(n + ".upgrade_keeps", bound, [] {
    // Between taking the shared lock and a successful upgrade nobody may have written.
    M m; Guarded g; Occ o;
    auto u = [&] {
      m.lock_shared();
      const int v = g.a;
      if (m.try_upgrade(true)) {
        o.InW();
        if (g.a != v) Fail("the data changed between the shared lock and its upgrade");
        g.Write(1); o.OutW(); m.unlock();
      } else {
        if (g.a != v) Fail("the data changed under a shared lock");
        m.unlock_shared();
      }
    };
    auto r = [&] { m.lock_shared(); o.InR(); g.Check(); o.OutR(); m.unlock_shared(); };
    Par({u, u, r});
    if (!m.try_lock()) Fail("try_lock fails on a free mutex");
    m.unlock();
  });
  mc::RunScenario(n + ".downgrade", bound, [] {
    M m; Guarded g; Occ o;
    auto d = [&] {
      m.lock(); o.InW(); g.Write(1); const int v = g.a; o.OutW();
      m.downgrade(); o.InR();
      g.Check(); if (g.a != v) Fail("the data changed under a downgraded lock");
      o.OutR(); m.unlock_shared();
    };
    auto w = [&] { m.lock(); o.InW(); g.Write(1); o.OutW(); m.unlock(); };
    auto r = [&] { m.lock_shared(); o.InR(); g.Check(); o.OutR(); m.unlock_shared(); };
    Par({d, w, r});
    if (g.a != 2) Fail("an update is lost");
    if (!m.try_lock()) Fail("try_lock fails on a free mutex");
    m.downgrade();
    if (!m.try_lock_shared()) Fail("a downgraded lock is not shared");
    m.unlock_shared();
    if (!m.try_upgrade(true)) Fail("the only owner cannot upgrade");
    if (m.try_lock_shared()) Fail("try_lock_shared succeeds beside an upgraded owner");
    m.unlock();
    if (!m.try_lock()) Fail("try_lock fails on a free mutex");
    m.unlock();
  });
}

static uint64_t Hash1(std::string_view d, uint64_t n) { return (uint8_t)d[0] % n; }

template <class M> void HashM(const std::string& n, int bound) {
  mc::RunScenario(n + ".slotted", bound, [] {
    SlottedMutex<M> m(2); Guarded g[2]; Occ o[2];
    auto w0 = [&] { ScopedSlottedLock<M> l(m, 0, true); o[0].InW(); g[0].Write(1); o[0].OutW(); };
    auto r1 = [&] { ScopedSlottedLock<M> l(m, 1, false); o[1].InR(); g[1].Check(); o[1].OutR(); };
    auto all = [&] { ScopedSlottedLock<M> l(m, -1, true); for (int i = 0; i < 2; i++) { o[i].InW(); g[i].Write(1); o[i].OutW(); } };
    Par({w0, r1, all});
    if (g[0].a != 2 || g[1].a != 1) Fail("an update is lost");
  });
  mc::RunScenario(n + ".slotted_all", bound, [] {
    SlottedMutex<M> m(2); Guarded g[2];
    auto all = [&] { ScopedSlottedLock<M> l(m, -1, true); for (int i = 0; i < 2; i++) g[i].Write(1); };
    auto alls = [&] { ScopedSlottedLock<M> l(m, -1, false); for (int i = 0; i < 2; i++) g[i].Check(); if (g[0].a != g[1].a) Fail("an update of all slots is half visible"); };
    Par({all, alls, all});
  });
  // Locks of several buckets taken in opposite orders, with collisions, beside single ones.
  mc::RunScenario(n + ".multi", bound, [] {
    HashMutex<M> m(2, 4, Hash1); Guarded g[4];
    auto mul = [&](std::vector<std::string_view> ks) {
      ScopedHashLockMulti<M> l(m, ks, true);
      auto ix = l.GetBucketIndices();
      if (ix.size() != ks.size()) Fail("bucket indices are missing");
      for (size_t i = 0; i < ks.size(); i++) if (ix[i] != (uint8_t)ks[i][0] % 4) Fail("wrong bucket index");
      std::set<int64_t> s(ix.begin(), ix.end());
      for (auto i : s) g[i].Write(1);
    };
    Par({[&] { mul({"\x01", "\x02", "\x03"}); }, [&] { mul({"\x02", "\x01", "\x02"}); },
         [&] { ScopedHashLock<M> l(m, std::string_view("\x03"), true); g[l.GetBucketIndex()].Write(1); }});
    if (g[1].a != 2 || g[2].a != 2 || g[3].a != 2) Fail("an update is lost");
  });
  mc::RunScenario(n + ".multi_shared", bound, [] {
    HashMutex<M> m(3, 6, Hash1); Guarded g[6];
    auto sh = [&](std::vector<std::string_view> ks) {
      ScopedHashLockMulti<M> l(m, ks, false);
      for (auto i : l.GetBucketIndices()) g[i].Check();
      if (g[1].a != g[2].a) Fail("half of a multi-record update is visible");
    };
    Par({[&] { ScopedHashLockMulti<M> l(m, {"\x02", "\x01"}, true); g[1].Write(1); g[2].Write(1); },
         [&] { sh({"\x01", "\x02"}); }, [&] { ScopedHashLock<M> l(m, true); for (int i = 1; i < 3; i++) g[i].Write(1); }});
    if (g[1].a != 2) Fail("an update is lost");
  });
  // Whoever holds a bucket holds it under the bucket count in force: rehashing under LockAll.
  mc::RunScenario(n + ".rehash", bound, [] {
    HashMutex<M> m(3, 2, Hash1);
    int64_t cur = 2;
    Guarded g;
    auto one = [&](bool w) {
      ScopedHashLock<M> l(m, std::string_view("\x05"), w);
      if (l.GetBucketIndex() != 5 % cur) Fail("a bucket index of another bucket count");
      if (w) g.Write(1); else g.Check();
    };
    auto re = [&](int64_t n2) {
      ScopedHashLock<M> l(m, true);
      cur = n2; m.Rehash(n2); g.Write(1);
      if (m.GetNumBuckets() != n2) Fail("the bucket count is not updated");
    };
    Par({[&] { one(true); }, [&] { re(7); }, [&] { one(false); }});
  });
  mc::RunScenario(n + ".rehash_multi", bound, [] {
    HashMutex<M> m(3, 2, Hash1);
    int64_t cur = 2;
    Guarded g5;
    auto mul = [&](bool w) {
      ScopedHashLockMulti<M> l(m, {"\x05", "\x04"}, w);
      auto ix = l.GetBucketIndices();
      if (ix[0] != 5 % cur || ix[1] != 4 % cur) Fail("a bucket index of another bucket count");
      if (w) g5.Write(1); else g5.Check();
    };
    Par({[&] { mul(true); }, [&] { ScopedHashLock<M> l(m, true); cur = 7; m.Rehash(7); g5.Write(1); },
         [&] { mul(false); }});
  });
  mc::RunScenario(n + ".rehash_index", bound, [] {
    HashMutex<M> m(3, 8, Hash1);
    int64_t cur = 8;
    int hit = 0, miss = 0;
    auto ix = [&](bool w) {
      ScopedHashLock<M> l(m, (int64_t)5, w);
      if (l.GetBucketIndex() < 0) { if (w) miss++; return; }
      if (cur != 8) Fail("a bucket that does not exist any more was locked");
      if (w) hit++;
    };
    Par({[&] { ix(true); }, [&] { ScopedHashLock<M> l(m, true); cur = 4; m.Rehash(4); }, [&] { ix(false); }});
    mc::Outcome("hit " + std::to_string(hit));
    { ScopedHashLock<M> l(m, (int64_t)5, true); if (l.GetBucketIndex() != -1) Fail("a bucket that does not exist was locked"); }
    { ScopedHashLock<M> l(m, true); }
  });
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const int b = Thorough() ? 4 : 2;
  Excl<SpinMutex>("SpinMutex", b);
  Excl<SpinSharedMutex>("SpinSharedMutex", b);
  Excl<SpinWPSharedMutex>("SpinWPSharedMutex", b);
  Shared<SpinSharedMutex>("SpinSharedMutex", b);
  Shared<SpinWPSharedMutex>("SpinWPSharedMutex", b);
  Upgrade<SpinSharedMutex>("SpinSharedMutex", b);
  Upgrade<SpinWPSharedMutex>("SpinWPSharedMutex", b);
  HashM<std::shared_mutex>("std", b);
  HashM<SpinSharedMutex>("Spin", b);
  mc::FinishReport();
}
