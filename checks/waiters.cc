// Wait counters, signal brokers and task queues under every schedule up to a preemption bound,
// with time-outs and spurious wakeups of condition variables as further choices.
#include "conc.h"
#include <atomic>
#include <memory>
#include "tkrzw_lib_common.h"
#include "tkrzw_str_util.h"
#include "tkrzw_thread_util.h"
using namespace tkrzw;
using mc::Fail;

static mc::ExploreOptions Spurious(bool on) { mc::ExploreOptions o; o.spurious = on; return o; }
static void Run(const std::string& n, int bound, const std::function<void()>& body, bool spurious = true) {
  mc::RunScenario(n, Thorough() ? bound + 1 : bound, body, 0, Spurious(spurious));
}

static void WaitCounters() {
  for (int waiters = 1; waiters <= 2; waiters++) {
    for (int dones = 1; dones <= 2; dones++) {
      Run("counter.wait" + std::to_string(waiters) + ".done" + std::to_string(dones), waiters + dones > 3 ? 2 : 3, [=] {
        WaitCounter wc(dones);
        int data[2] = {0, 0};
        std::vector<std::function<void()>> fs;
        for (int i = 0; i < dones; i++) fs.push_back([&, i] { data[i] = 1; wc.Done(); });
        for (int i = 0; i < waiters; i++)
          fs.push_back([&] {
            if (!wc.Wait(-1)) Fail("an unlimited wait on a counter that reaches zero is not woken");
            if (wc.Get() > 0) Fail("a wait succeeds though the counter is above zero");
            for (int j = 0; j < dones; j++) if (!data[j]) Fail("a wait succeeds before the event it waits for");
          });
        Par(fs);
        if (wc.Get() != 0) Fail("the counter has a wrong value");
        if (!wc.Wait(0) || !wc.Wait(-1) || !wc.Wait(1)) Fail("a wait fails though the counter is zero");
      });
    }
  }
  Run("counter.done_many", 3, [] {
    WaitCounter wc;
    wc.Add(2);
    wc.Add(1);
    if (wc.Wait(0)) Fail("a wait of no time succeeds though the counter is above zero");
    if (wc.Get() != 3) Fail("the counter has a wrong value");
    Par({[&] { wc.Done(2); }, [&] { wc.Done(); },
         [&] { if (!wc.Wait(-1)) Fail("an unlimited wait on a counter that reaches zero is not woken"); }});
  });
  Run("counter.below_zero", 3, [] {
    WaitCounter wc(1);
    Par({[&] { wc.Done(3); }, [&] { if (!wc.Wait()) Fail("an unlimited wait on a counter that falls below zero is not woken"); }});
    if (wc.Get() != -2) Fail("the counter has a wrong value");
  });
  Run("counter.add_meanwhile", 2, [] {
    WaitCounter wc(1);
    std::atomic_bool ended(false);
    Par({[&] { wc.Add(); wc.Done(); wc.Done(); ended = true; },
         [&] { if (!wc.Wait()) Fail("an unlimited wait on a counter that reaches zero is not woken"); },
         [&] { if (wc.Wait(1) && wc.Get() > 0) Fail("a wait succeeds though the counter never was zero"); }});
  });
  Run("counter.timeout", 3, [] {
    WaitCounter wc(1);
    bool ok = false;
    Par({[&] { mc::Point(); wc.Done(); }, [&] { ok = wc.Wait(1); if (ok && wc.Get() > 0) Fail("a wait succeeds though the counter is above zero"); }});
    mc::Outcome(ok ? "met" : "timed out");
    wc.Add();
    if (wc.Wait(0.5)) Fail("a wait succeeds though the counter is above zero");
  });
  Run("counter.release", 3, [] {
    // The counter is released as soon as the wait is over.
    auto wc = std::make_unique<WaitCounter>(2);
    auto* p = wc.get();
    std::thread a([p] { p->Done(); }), b([p] { p->Done(); });
    if (!wc->Wait()) Fail("an unlimited wait on a counter that reaches zero is not woken");
    wc.reset();
    a.join();
    b.join();
  });
}

// A broker under one interface.
struct Broker {
  std::function<bool(int, bool)> send;
  std::function<bool(int, double, const std::function<void()>&)> wait;   // the function runs between construction and wait
};
struct BrokerKind { std::string name; bool keyed; std::function<std::shared_ptr<Broker>()> make; };

static std::shared_ptr<Broker> MakePlain() {
  auto b = std::make_shared<SignalBroker>();
  auto r = std::make_shared<Broker>();
  r->send = [b](int, bool all) { return b->Send(all); };
  r->wait = [b](int, double t, const std::function<void()>& f) { SignalBroker::Waiter w(b.get()); f(); return w.Wait(t); };
  return r;
}
static std::shared_ptr<Broker> MakeKeyed() {
  auto b = std::make_shared<KeySignalBroker<int>>();
  auto r = std::make_shared<Broker>();
  r->send = [b](int k, bool all) { return b->Send(k, all); };
  r->wait = [b](int k, double t, const std::function<void()>& f) { KeySignalBroker<int>::Waiter w(b.get(), k); f(); return w.Wait(t); };
  return r;
}
template <int SLOTS> std::shared_ptr<Broker> MakeSlotted() {
  auto b = std::make_shared<SlottedKeySignalBroker<int>>(SLOTS);
  auto r = std::make_shared<Broker>();
  r->send = [b](int k, bool all) { return b->Send(k, all); };
  r->wait = [b](int k, double t, const std::function<void()>& f) { SlottedKeySignalBroker<int>::Waiter w(b.get(), k); f(); return w.Wait(t); };
  return r;
}

static const auto NOP = [] {};

static void Brokers(const BrokerKind& bk) {
  const std::string& n = bk.name;
  auto mk = bk.make;
  const bool main_kind = n == "signal" || n == "key";
  const int d = main_kind ? 0 : 1;
  // Nobody waits.
  Run(n + ".nobody", 1, [=] {
    auto b = mk();
    if (b->send(1, true) || b->send(1, false)) Fail("a signal is reported as received though nobody waits");
    if (b->wait(1, 0, NOP)) Fail("a wait succeeds without a signal");
    if (b->wait(1, 0.1, NOP)) Fail("a wait succeeds without a signal");
    if (b->send(1, true) || b->send(1, false)) Fail("a signal is reported as received by a waiter that has given up");
  });
  // Number of successful waits against the signals that were reported as received.
  for (bool all : {true, false}) {
    for (int waiters = 1; waiters <= (main_kind ? 3 : 2); waiters++) {
      Run(n + (all ? ".all" : ".one") + std::to_string(waiters), (waiters > 2 ? 1 : waiters > 1 ? 2 : 3) - (waiters > 2 ? 0 : d), [=] {
        auto b = mk();
        std::vector<std::function<void()>> fs;
        int ok[3] = {0, 0, 0}, received = 0;
        for (int i = 0; i < waiters; i++) fs.push_back([&, i] { ok[i] = b->wait(1, 1, NOP); });
        fs.push_back([&] { received = b->send(1, all); });
        Par(fs);
        const int woken = ok[0] + ok[1] + ok[2];
        if (received ? woken == 0 : woken > 0) Fail("waits that succeed and the report of the signal disagree: " + std::to_string(woken) + " woken, report " + std::to_string(received));
        if (!all && woken > 1) Fail("a signal for one waiter wakes " + std::to_string(woken));
        if (b->send(1, true)) Fail("a signal is reported as received though nobody waits");
        mc::Outcome("woken " + std::to_string(woken) + " received " + std::to_string(received));
      });
    }
  }
  // Signals are sent until every waiter has been woken: no unlimited wait may fail.
  for (int mode = 0; mode < 2; mode++) {
    const bool all = mode == 0;
    Run(n + ".unlimited." + (all ? "all" : "one"), 2 - d, [=] {
      auto b = mk();
      std::atomic_int left(2);
      auto w = [&] { if (!b->wait(1, -1, NOP)) Fail("an unlimited wait is not woken by the signals sent to it"); left--; };
      auto s = [&] {
        int sent = 0;
        while (left.load() > 0) {
          if (b->send(1, all)) sent++;
          std::this_thread::yield();
        }
        if (!all && sent != 2) Fail("two waiters took " + std::to_string(sent) + " signals for one waiter");
        if (all && (sent < 1 || sent > 2)) Fail("two waiters took " + std::to_string(sent) + " signals");
      };
      Par({w, w, s});
    }, false);
  }
  // Both signals of two senders, for one waiter each, are received by different waiters.
  Run(n + ".two_senders", 2 - d, [=] {
    auto b = mk();
    int ok[2] = {0, 0}, got[2] = {0, 0};
    Par({[&] { ok[0] = b->wait(1, 1, NOP); }, [&] { ok[1] = b->wait(1, 1, NOP); },
         [&] { got[0] = b->send(1, false); got[1] = b->send(1, false); }});
    if (ok[0] + ok[1] != got[0] + got[1]) Fail("signals received and waits that succeed differ: " + std::to_string(got[0] + got[1]) + " and " + std::to_string(ok[0] + ok[1]));
    mc::Outcome("received " + std::to_string(got[0] + got[1]));
  });
  if (!bk.keyed) return;
  // Signals for another key.
  for (bool all : {true, false}) {
    Run(n + ".keys." + (all ? "all" : "one"), 2 - d, [=] {
      auto b = mk();
      int ok[2] = {0, 0}, got = 0;
      Par({[&] { ok[0] = b->wait(1, 1, NOP); }, [&] { ok[1] = b->wait(2, 1, NOP); }, [&] { got = b->send(1, all); }});
      if (ok[1]) Fail("a wait succeeds by a signal for another key");
      if (ok[0] != got) Fail("the wait and the report of the signal disagree");
      mc::Outcome("received " + std::to_string(got));
    });
    Run(n + ".keys_unlimited." + (all ? "all" : "one"), 2 - d, [=] {
      auto b = mk();
      std::atomic_int left(2);
      Par({[&] { if (!b->wait(1, -1, NOP)) Fail("an unlimited wait is not woken by the signal for its key"); left--; },
           [&] { if (!b->wait(2, -1, NOP)) Fail("an unlimited wait is not woken by the signal for its key"); left--; },
           [&] {
             int got1 = 0, got2 = 0;
             while (left.load() > 0) {
               if (b->send(1, all)) got1++;
               if (b->send(2, all)) got2++;
               std::this_thread::yield();
             }
             if (got1 != 1 || got2 != 1) Fail("a waiter took a number of signals other than one");
           }});
    }, false);
  }
}

static void TaskQueues() {
  for (int workers = 1; workers <= 2; workers++) {
    for (int tasks = 0; tasks <= 3; tasks++) {
      if (workers == 2 && tasks == 3 && !Thorough()) continue;
      Run("tasks.workers" + std::to_string(workers) + ".tasks" + std::to_string(tasks), workers == 1 ? 3 : 2, [=] {
        TaskQueue q;
        q.Start(workers);
        int runs[3] = {0, 0, 0};   // plain: Stop must make them visible
        std::atomic_int seq(0);
        int order[3] = {-1, -1, -1};
        for (int i = 0; i < tasks; i++) q.Add([&, i] { runs[i]++; order[i] = seq++; });
        q.Stop(1000);
        for (int i = 0; i < tasks; i++) if (runs[i] != 1) Fail("a task ran " + std::to_string(runs[i]) + " times");
        if (workers == 1) for (int i = 0; i < tasks; i++) if (order[i] != i) Fail("tasks ran out of the order of their addition");
        if (q.GetSize() != 0) Fail("a stopped queue has tasks");
      });
    }
  }
  Run("tasks.adders", 2, [] {
    TaskQueue q;
    int runs[2] = {0, 0};
    q.Start(1);
    Par({[&] { q.Add([&] { runs[0]++; }); }, [&] { q.Add([&] { runs[1]++; }); }});
    q.Stop(1000);
    if (runs[0] != 1 || runs[1] != 1) Fail("a task did not run once");
  });
  Run("tasks.before_start", 2, [] {
    TaskQueue q;
    int runs[2] = {0, 0};
    q.Add([&] { runs[0]++; });
    q.Add([&] { runs[1]++; });
    if (q.GetSize() != 2) Fail("a wrong number of waiting tasks");
    q.Start(2);
    q.Stop(1000);
    if (runs[0] != 1 || runs[1] != 1) Fail("a task did not run once");
  });
  Run("tasks.spawn", 2, [] {
    // A task adds another one, and its completion is waited for.
    TaskQueue q;
    q.Start(2);
    WaitCounter wc(2);
    int runs[2] = {0, 0};
    q.Add([&] { runs[0]++; q.Add([&] { runs[1]++; wc.Done(); }); wc.Done(); });
    if (!wc.Wait()) Fail("a task of a running queue is never run");
    q.Stop(1000);
    if (runs[0] != 1 || runs[1] != 1) Fail("a task did not run once");
  });
  Run("tasks.idle", 2, [] {
    // The workers are asleep when tasks arrive.
    TaskQueue q;
    q.Start(2);
    for (int i = 0; i < 2; i++) {
      WaitCounter wc(1);
      int runs = 0;
      q.Add([&] { runs++; wc.Done(); });
      if (!wc.Wait()) Fail("a task of a running queue is never run");
      if (runs != 1) Fail("a task did not run once");
    }
    q.Stop(0);
  });
  Run("tasks.stop_at_once", 3, [] {
    { TaskQueue q; q.Start(2); q.Stop(0); }
    { TaskQueue q; q.Start(1); }
    TaskQueue q;
    int runs = 0;
    q.Start(1);
    q.Stop(0);
    q.Start(1);
    q.Add([&] { runs++; });
    q.Stop(1000);
    if (runs != 1) Fail("a task did not run once");
  });
  Run("tasks.destructor", 2, [] {
    int runs = 0;
    { TaskQueue q; q.Start(1); q.Add([&] { runs++; }); }
    if (runs > 1) Fail("a task ran twice");
    mc::Outcome("ran " + std::to_string(runs));
  });
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  WaitCounters();
  TaskQueues();
  std::vector<BrokerKind> kinds = {{"signal", false, MakePlain}, {"key", true, MakeKeyed},
                                   {"slotted1", true, MakeSlotted<1>}, {"slotted2", true, MakeSlotted<2>}};
  for (auto& k : kinds) Brokers(k);
  mc::FinishReport();
  return 0;
}
