// Writers and readers of a message queue under every schedule up to a preemption bound,
// with time-outs and spurious wakeups as further choices.
#include "lin.h"
#include <atomic>
#include <memory>
#include "tkrzw_file_util.h"
#include "tkrzw_message_queue.h"
using namespace tkrzw;
using mc::Fail;

struct Msg { int64_t ts; std::string m; bool operator==(const Msg& o) const { return ts == o.ts && m == o.m; } };
typedef std::vector<Msg> Msgs;
static std::string Show(const Msgs& v) { std::string s = "("; for (auto& m : v) s += std::to_string(m.ts) + "[" + m.m.substr(0, 4) + "] "; return s + ")"; }
static std::string dir;
static std::string Prefix() { return dir + "/q"; }
static void Ok(const Status& s, const char* what) { if (s != Status::SUCCESS) Fail(std::string(what) + ": " + ToString(s)); }
static std::string Text(const std::string& t) { return t + std::string(30, '-'); }

static LinSuite suite;
static void Run(const std::string& n, int bound, int64_t max, int options, const std::function<void(MessageQueue*)>& body, bool spurious = false) {
  mc::ExploreOptions o;
  o.spurious = spurious;
  o.io_points = Thorough() || n.find("remove") != std::string::npos || n.find("open") != std::string::npos;
  suite.AddRun([=](double share) { mc::RunScenario(n, Thorough() ? bound + 1 : bound, [=] {
    mc::NoSched(true);
    CleanDir(dir);
    auto q = std::make_unique<MessageQueue>();
    Ok(q->Open(Prefix(), max, options | MessageQueue::OPEN_TRUNCATE), "Open");
    mc::NoSched(false);
    body(q.get());
    mc::NoSched(true);
    q.reset();
    mc::NoSched(false);
  }, share, o); });
}
static void Write(MessageQueue* q, int64_t ts, const std::string& t) { Ok(q->Write(ts, Text(t)), "Write"); }
// Reads all that is there.
static Msgs Drain(MessageQueue* q, MessageQueue::Reader* r, Msgs got = {}, bool ro = false) {
  while (true) {
    int64_t ts = -1;
    std::string m;
    const Status s = r->Read(&ts, &m, 0);
    if (s == (ro ? Status::NOT_FOUND_ERROR : Status::INFEASIBLE_ERROR)) return got;
    Ok(s, "Read");
    got.push_back({ts, m});
    if (got.size() > 20) Fail("endless reading");
  }
}
// The final content: what every writer wrote, in its order, each once, with timestamps that do not decrease.
static Msgs Final(MessageQueue* q, const std::vector<std::vector<std::pair<int64_t, std::string>>>& written) {
  mc::NoSched(true);
  auto r = q->MakeReader(0);
  const Msgs all = Drain(q, r.get());
  size_t n = 0;
  for (auto& w : written) {
    size_t i = 0;
    for (auto& m : all) if (i < w.size() && m.m == Text(w[i].second)) { if (m.ts < w[i].first) Fail("a timestamp is below the one given: " + Show(all)); i++; }
    if (i != w.size()) Fail("messages are missing or out of order: " + Show(all));
    n += w.size();
  }
  if (n != all.size()) Fail("there are more messages than written: " + Show(all));
  for (size_t i = 1; i < all.size(); i++) if (all[i].ts < all[i - 1].ts) Fail("timestamps decrease: " + Show(all));
  if (q->GetTimestamp() < (all.empty() ? 0 : all.back().ts)) Fail("the queue's timestamp is behind");
  r.reset();
  Ok(q->Close(), "Close");
  MessageQueue v;
  Ok(v.Open(Prefix(), 1000, MessageQueue::OPEN_READ_ONLY), "opening read-only");
  r = v.MakeReader(0);
  const Msgs again = Drain(&v, r.get(), {}, true);
  if (!(again == all)) Fail("after closing and opening the messages are " + Show(again) + " and not " + Show(all));
  std::string s;
  for (auto& m : all) s += m.m.substr(0, 2) + "@" + std::to_string(m.ts) + " ";
  mc::Outcome(s);
  mc::NoSched(false);
  return all;
}
static void Same(const Msgs& got, const Msgs& all, int64_t min, bool complete) {
  Msgs want;
  for (auto& m : all) if (m.ts >= min) want.push_back(m);
  if (got.size() > want.size() || (complete && got.size() < want.size()) || !std::equal(got.begin(), got.end(), want.begin())) Fail("a reader from " + std::to_string(min) + " got " + Show(got) + " of " + Show(want));
}
static Msgs ReadN(MessageQueue::Reader* r, int n, double wait) {
  Msgs got;
  for (int i = 0; i < n; i++) {
    int64_t ts = -1;
    std::string m;
    const Status s = r->Read(&ts, &m, wait);
    if (s == Status::INFEASIBLE_ERROR && wait >= 0) continue;
    Ok(s, "Read");
    got.push_back({ts, m});
  }
  return got;
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  mc::FsScope(Scratch());
  dir = Scratch() + "/mq";
  ::mkdir(dir.c_str(), 0755);
  struct C { const char* n; int64_t max; int opt; };
  for (auto& c : std::vector<C>{{"one", 10000, 0}, {"switch", 40, 0}, {"hard", 40, MessageQueue::OPEN_SYNC_HARD}}) {
    const std::string n = std::string(c.n) + "/";
    auto run = [&](const std::string& s, int bound, const std::function<void(MessageQueue*)>& body, bool spurious = false) { Run(n + s, std::max(1, bound - (c.opt ? 1 : 0)), c.max, c.opt, body, spurious); };
    run("write-write", 2, [](MessageQueue* q) {
      Par({[&] { Write(q, 5, "a1"); Write(q, 3, "a2"); }, [&] { Write(q, 4, "b1"); Write(q, 6, "b2"); }});
      Final(q, {{{5, "a1"}, {3, "a2"}}, {{4, "b1"}, {6, "b2"}}});
    });
    run("write-wait", 3, [](MessageQueue* q) {
      auto r = q->MakeReader(0);
      Msgs got;
      Par({[&] { Write(q, 1, "a1"); Write(q, 2, "a2"); }, [&] { got = ReadN(r.get(), 2, -1); }});
      got = Drain(q, r.get(), got);
      r.reset();
      Same(got, Final(q, {{{1, "a1"}, {2, "a2"}}}), 0, true);
    }, true);
    run("write-poll", 3, [](MessageQueue* q) {
      auto r = q->MakeReader(2);
      Msgs got;
      Par({[&] { Write(q, 1, "a1"); Write(q, 2, "a2"); Write(q, 2, "a3"); }, [&] { got = ReadN(r.get(), 3, 0); }});
      got = Drain(q, r.get(), got);
      r.reset();
      Same(got, Final(q, {{{1, "a1"}, {2, "a2"}, {2, "a3"}}}), 2, true);
    });
    run("write-timed", 2, [](MessageQueue* q) {
      auto r = q->MakeReader(0);
      Msgs got;
      Par({[&] { Write(q, 1, "a1"); Write(q, 2, "a2"); }, [&] { got = ReadN(r.get(), 2, 1); }});
      got = Drain(q, r.get(), got);
      r.reset();
      Same(got, Final(q, {{{1, "a1"}, {2, "a2"}}}), 0, true);
    }, true);
    run("write-wait-wait", 2, [](MessageQueue* q) {
      auto r1 = q->MakeReader(0), r2 = q->MakeReader(2);
      Msgs g1, g2;
      Par({[&] { Write(q, 1, "a1"); Write(q, 3, "a2"); }, [&] { g1 = ReadN(r1.get(), 2, -1); }, [&] { g2 = ReadN(r2.get(), 1, -1); }});
      g1 = Drain(q, r1.get(), g1);
      g2 = Drain(q, r2.get(), g2);
      r1.reset();
      r2.reset();
      const Msgs all = Final(q, {{{1, "a1"}, {3, "a2"}}});
      Same(g1, all, 0, true);
      Same(g2, all, 2, true);
    });
    run("write-write-wait", 2, [](MessageQueue* q) {
      auto r = q->MakeReader(0);
      Msgs got;
      Par({[&] { Write(q, 5, "a1"); }, [&] { Write(q, 4, "b1"); Write(q, 4, "b2"); }, [&] { got = ReadN(r.get(), 3, -1); }});
      got = Drain(q, r.get(), got);
      r.reset();
      Same(got, Final(q, {{{5, "a1"}}, {{4, "b1"}, {4, "b2"}}}), 0, true);
    });
    run("close-wait", 3, [](MessageQueue* q) {
      auto r = q->MakeReader(0);
      Msgs got;
      Par({[&] { Write(q, 1, "a1"); Ok(q->Close(), "Close"); }, [&] {
        while (true) {
          int64_t ts = -1;
          std::string m;
          const Status s = r->Read(&ts, &m, -1);
          if (s == Status::CANCELED_ERROR) break;
          Ok(s, "Read");
          got.push_back({ts, m});
          if (got.size() > 5) Fail("endless reading");
        }
      }});
      r.reset();
      Same(got, {{1, Text("a1")}}, 0, false);
      mc::Outcome(std::to_string(got.size()));
    }, true);
    // Everyone who waits is woken, by a message, by the closing and by a cancellation.
    if (n.compare(0, 3, "one") == 0) for (const std::string how : {"write", "close", "cancel"}) run(how + "-wait-wait", 2, [how](MessageQueue* q) {
      auto r1 = q->MakeReader(0), r2 = q->MakeReader(0);
      auto reader = [&](MessageQueue::Reader* r) {
        int64_t ts = -1;
        std::string m;
        const Status s = r->Read(&ts, &m, -1);
        if (how == "write") { Ok(s, "Read"); if (ts != 1 || m != Text("a1")) Fail("Read gives another message"); }
        else if (s != Status::CANCELED_ERROR) Fail("Read gives " + ToString(s));
      };
      Par({[&] {
        if (how == "write") Write(q, 1, "a1");
        else if (how == "close") Ok(q->Close(), "Close");
        else Ok(q->CancelReaders(), "CancelReaders");
      }, [&] { reader(r1.get()); }, [&] { reader(r2.get()); }});
    }, true);
    run("close-poll", 3, [](MessageQueue* q) {
      auto r = q->MakeReader(0);
      Write(q, 1, "a1");
      Msgs got;
      Par({[&] { Write(q, 2, "a2"); Ok(q->Close(), "Close"); }, [&] {
        for (int i = 0; i < 3; i++) {
          int64_t ts = -1;
          std::string m;
          const Status s = r->Read(&ts, &m, 0);
          if (s == Status::CANCELED_ERROR || s == Status::INFEASIBLE_ERROR) continue;
          Ok(s, "Read");
          got.push_back({ts, m});
        }
      }});
      r.reset();
      Same(got, {{1, Text("a1")}, {2, Text("a2")}}, 0, false);
      mc::Outcome(std::to_string(got.size()));
    });
    run("cancel-wait", 3, [](MessageQueue* q) {
      auto r = q->MakeReader(0);
      Status s1;
      Par({[&] { Ok(q->CancelReaders(), "CancelReaders"); Write(q, 1, "a1"); }, [&] {
        int64_t ts = -1;
        std::string m;
        s1 = r->Read(&ts, &m, -1);
        if (s1 != Status::CANCELED_ERROR && s1 != Status::SUCCESS) Fail("Read gives " + ToString(s1));
        if (s1 == Status::SUCCESS) Fail("a reader gets a message written after its cancellation");
      }});
      r.reset();
      Final(q, {{{1, "a1"}}});
    }, true);
    run("write-ready", 3, [](MessageQueue* q) {
      auto r = q->MakeReader(0);
      Par({[&] { Write(q, 1, "a1"); }, [&] { Ok(r->Wait(-1), "Wait"); if (ReadN(r.get(), 1, 0).size() != 1) Fail("nothing to read after waiting"); }});
      r.reset();
      Final(q, {{{1, "a1"}}});
    }, true);
    run("write-sync", 2, [](MessageQueue* q) {
      Par({[&] { Write(q, 1, "a1"); Write(q, 2, "a2"); }, [&] { Ok(q->Synchronize(false), "Synchronize"); Ok(q->Synchronize(true), "Synchronize"); }});
      Final(q, {{{1, "a1"}, {2, "a2"}}});
    });
    run("write-stamp", 3, [](MessageQueue* q) {
      Par({[&] { Write(q, 1, "a1"); Write(q, 2, "a2"); }, [&] {
        const int64_t t1 = q->GetTimestamp();
        Ok(q->UpdateTimestamp(7), "UpdateTimestamp");
        const int64_t t2 = q->GetTimestamp();
        if (t1 < 0 || t1 > 2 || t2 < 7) Fail("timestamps " + std::to_string(t1) + " " + std::to_string(t2));
      }});
      Final(q, {{{1, "a1"}, {2, "a2"}}});
    });
    run("write-reader comes and goes", 2, [](MessageQueue* q) {
      Write(q, 1, "a0");
      Msgs g1, g2;
      Par({[&] { Write(q, 1, "a1"); Write(q, 2, "a2"); }, [&] {
        { auto r = q->MakeReader(0); g1 = ReadN(r.get(), 1, -1); }
        auto r = q->MakeReader(2);
        g2 = ReadN(r.get(), 1, -1);
        r.reset();
      }});
      const Msgs all = Final(q, {{{1, "a0"}, {1, "a1"}, {2, "a2"}}});
      Same(g1, all, 0, false);
      Same(g2, all, 2, false);
    });
    run("write-remove-read", 2, [](MessageQueue* q) {
      Write(q, 1, "a0");
      Write(q, 4, "a1");
      auto r = q->MakeReader(4);
      Msgs got;
      Par({[&] { Write(q, 5, "a2"); Write(q, 6, "a3"); }, [&] { Ok(MessageQueue::RemoveOldFiles(Prefix(), 3, true), "RemoveOldFiles"); }, [&] { got = ReadN(r.get(), 3, -1); }});
      r.reset();
      Same(got, {{4, Text("a1")}, {5, Text("a2")}, {6, Text("a3")}}, 4, true);
      auto z = q->MakeReader(4);
      Same(Drain(q, z.get()), {{4, Text("a1")}, {5, Text("a2")}, {6, Text("a3")}}, 4, true);
    });
    run("open-write-close", 2, [](MessageQueue* q) {
      int ok[2] = {0, 0};
      Par({[&] { for (int i = 0; i < 2; i++) { const Status s = q->Write(i, Text("a" + std::to_string(i))); if (s == Status::SUCCESS) ok[0]++; else if (s != Status::PRECONDITION_ERROR) Fail("Write gives " + ToString(s)); } },
           [&] { Ok(q->Close(), "Close"); Ok(q->Open(Prefix(), 40), "Open"); }});
      mc::NoSched(true);
      auto r = q->MakeReader(0);
      if ((int)Drain(q, r.get()).size() != ok[0]) Fail("a message is lost");
      r.reset();
      mc::NoSched(false);
      mc::Outcome(std::to_string(ok[0]));
    });
  }
  suite.Run();
  mc::FinishReport();
}
