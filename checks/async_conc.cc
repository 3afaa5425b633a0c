// The asynchronous adapter against the synchronous operations: every operation alone and every pair
// of operations, on one and two workers, under every schedule up to a preemption bound.
#include "dbs.h"
#include "tkrzw_dbm_async.h"
#include "tkrzw_dbm_common_impl.h"
#include "tkrzw_dbm_poly.h"
using namespace tkrzw;
using mc::Fail;

static std::string St(const Status& s) { return Status::CodeName(s.GetCode()); }
static std::string Q(std::string_view s) { return "'" + std::string(s) + "'"; }

// Arguments live in memory of their own, which is overwritten and released after the submission.
struct Arg {
  char* p;
  size_t n;
  explicit Arg(const std::string& s) : p(new char[s.size() + 1]), n(s.size()) { memcpy(p, s.data(), n); }
  ~Arg() { memset(p, '#', n + 1); delete[] p; }
  operator std::string_view() const { return std::string_view(p, n); }
};
static const std::string KA = "key-a-of-some-length", KB = "key-b-of-some-length", KC = "key-c-of-some-length";
static const std::string V0 = "value-0-of-some-length", V1 = "value-1-of-some-length", VN = "10";

typedef std::function<std::string()> Getter;
struct AOp {
  std::string name;
  std::function<Getter(AsyncDBM*)> submit;
  std::function<std::string(DBM*)> sync;
  const char* post = nullptr;     // name given to the common postprocessor
};

template <class T> std::shared_ptr<T> Keep(T&& t) { return std::make_shared<T>(std::move(t)); }
static Getter Stat_(std::future<Status>&& f) { auto p = Keep(std::move(f)); return [p] { return St(p->get()); }; }

struct Proc : public AsyncDBM::RecordProcessor {
  std::string ret, log;
  bool noop;
  explicit Proc(const std::string& r, bool n = false) : ret(r), noop(n) {}
  std::string_view ProcessFull(std::string_view k, std::string_view v) override { log += "F" + Q(k) + Q(v); return noop ? NOOP : std::string_view(ret); }
  std::string_view ProcessEmpty(std::string_view k) override { log += "E" + Q(k); return noop ? NOOP : std::string_view(ret); }
  void ProcessStatus(const Status& s) override { log += "S" + St(s); }
};
static std::string RunSync(const std::function<Status(Proc*)>& f, Proc&& p) { Status s = f(&p); p.ProcessStatus(s); return St(s) + p.log; }

static std::string Join(const std::map<std::string, std::string>& m) { std::string r; for (auto& x : m) r += Q(x.first) + ":" + Q(x.second) + ","; return r; }
static std::string Join(const std::vector<std::string>& m) { std::vector<std::string> s = m; std::sort(s.begin(), s.end()); std::string r; for (auto& x : s) r += Q(x) + ","; return r; }

static std::vector<AOp> Ops() {
  std::vector<AOp> r;
  r.push_back({"get", [](AsyncDBM* a) -> Getter { Arg k(KA); auto f = Keep(a->Get(k)); return [f] { auto x = f->get(); return St(x.first) + Q(x.second); }; },
               [](DBM* d) { std::string v; Status s = d->Get(KA, &v); return St(s) + Q(v); }, "Get"});
  r.push_back({"set", [](AsyncDBM* a) { Arg k(KA), v(V1); return Stat_(a->Set(k, v)); }, [](DBM* d) { return St(d->Set(KA, V1)); }, "Set"});
  r.push_back({"set_new", [](AsyncDBM* a) { Arg k(KA), v(V1); return Stat_(a->Set(k, v, false)); }, [](DBM* d) { return St(d->Set(KA, V1, false)); }, "Set"});
  r.push_back({"remove", [](AsyncDBM* a) { Arg k(KA); return Stat_(a->Remove(k)); }, [](DBM* d) { return St(d->Remove(KA)); }, "Remove"});
  r.push_back({"append", [](AsyncDBM* a) { Arg k(KA), v(V1), t("--delimiter--of-some-length"); return Stat_(a->Append(k, v, t)); }, [](DBM* d) { return St(d->Append(KA, V1, "--delimiter--of-some-length")); }, "Append"});
  r.push_back({"get_multi", [](AsyncDBM* a) -> Getter { Arg k(KA), l(KC); auto f = Keep(a->GetMulti(std::vector<std::string_view>{k, l})); return [f] { auto x = f->get(); return St(x.first) + Join(x.second); }; },
               [](DBM* d) { std::map<std::string, std::string> m; Status s = d->GetMulti(std::vector<std::string_view>{KA, KC}, &m); return St(s) + Join(m); }, "GetMulti"});
  r.push_back({"set_multi", [](AsyncDBM* a) { Arg k(KA), l(KC), v(V1), w(V0); return Stat_(a->SetMulti(std::map<std::string_view, std::string_view>{{k, v}, {l, w}})); },
               [](DBM* d) { return St(d->SetMulti(std::map<std::string_view, std::string_view>{{KA, V1}, {KC, V0}})); }, "SetMulti"});
  r.push_back({"set_multi_new", [](AsyncDBM* a) { return Stat_(a->SetMulti(std::map<std::string, std::string>{{KA, V1}, {KC, V0}}, false)); },
               [](DBM* d) { return St(d->SetMulti(std::map<std::string, std::string>{{KA, V1}, {KC, V0}}, false)); }, "SetMulti"});
  r.push_back({"remove_multi", [](AsyncDBM* a) { Arg k(KA), l(KB); return Stat_(a->RemoveMulti(std::vector<std::string_view>{k, l})); },
               [](DBM* d) { return St(d->RemoveMulti(std::vector<std::string_view>{KA, KB})); }, "RemoveMulti"});
  r.push_back({"append_multi", [](AsyncDBM* a) { Arg k(KA), l(KC), v(V1), t("--delimiter--of-some-length"); return Stat_(a->AppendMulti(std::map<std::string_view, std::string_view>{{k, v}, {l, v}}, t)); },
               [](DBM* d) { return St(d->AppendMulti(std::map<std::string_view, std::string_view>{{KA, V1}, {KC, V1}}, "--delimiter--of-some-length")); }, "AppendMulti"});
  r.push_back({"compare_exchange", [](AsyncDBM* a) { Arg k(KA), e(V0), v(V1); return Stat_(a->CompareExchange(k, e, v)); }, [](DBM* d) { return St(d->CompareExchange(KA, V0, V1)); }, "CompareExchange"});
  r.push_back({"compare_exchange_absent", [](AsyncDBM* a) { Arg k(KC), v(V1); return Stat_(a->CompareExchange(k, std::string_view(), v)); }, [](DBM* d) { return St(d->CompareExchange(KC, std::string_view(), V1)); }, "CompareExchange"});
  r.push_back({"compare_exchange_remove", [](AsyncDBM* a) { Arg k(KA), e(V0); return Stat_(a->CompareExchange(k, e, std::string_view())); }, [](DBM* d) { return St(d->CompareExchange(KA, V0, std::string_view())); }, "CompareExchange"});
  r.push_back({"compare_exchange_any", [](AsyncDBM* a) { Arg k(KA); return Stat_(a->CompareExchange(k, DBM::ANY_DATA, "")); }, [](DBM* d) { return St(d->CompareExchange(KA, DBM::ANY_DATA, "")); }, "CompareExchange"});
  r.push_back({"compare_exchange_check", [](AsyncDBM* a) { Arg k(KA), e(V0); return Stat_(a->CompareExchange(k, e, DBM::ANY_DATA)); }, [](DBM* d) { return St(d->CompareExchange(KA, V0, DBM::ANY_DATA)); }, "CompareExchange"});
  r.push_back({"compare_exchange_multi", [](AsyncDBM* a) {
                 Arg k(KA), l(KB), c(KC), e(V0), v(V1);
                 return Stat_(a->CompareExchangeMulti({{k, e}, {l, DBM::ANY_DATA}, {c, std::string_view()}}, {{k, std::string_view()}, {c, v}, {l, v}})); },
               [](DBM* d) { return St(d->CompareExchangeMulti({{KA, V0}, {KB, DBM::ANY_DATA}, {KC, std::string_view()}}, {{KA, std::string_view()}, {KC, V1}, {KB, V1}})); }, "CompareExchangeMulti"});
  r.push_back({"increment", [](AsyncDBM* a) -> Getter { Arg k(KC); auto f = Keep(a->Increment(k, 3, 100)); return [f] { auto x = f->get(); return St(x.first) + std::to_string(x.second); }; },
               [](DBM* d) { int64_t c = 0; Status s = d->Increment(KC, 3, &c, 100); return St(s) + std::to_string(c); }, "Increment"});
  r.push_back({"rekey", [](AsyncDBM* a) { Arg k(KA), l(KC); return Stat_(a->Rekey(k, l)); }, [](DBM* d) { return St(d->Rekey(KA, KC)); }, "Rekey"});
  r.push_back({"rekey_copy", [](AsyncDBM* a) { Arg k(KA), l(KB); return Stat_(a->Rekey(k, l, false, true)); }, [](DBM* d) { return St(d->Rekey(KA, KB, false, true)); }, "Rekey"});
  r.push_back({"rekey_copy_over", [](AsyncDBM* a) { Arg k(KA), l(KB); return Stat_(a->Rekey(k, l, true, true)); }, [](DBM* d) { return St(d->Rekey(KA, KB, true, true)); }, "Rekey"});
  r.push_back({"pop_first", [](AsyncDBM* a) -> Getter { auto f = Keep(a->PopFirst()); return [f] { auto x = f->get(); return St(x.first) + Q(x.second.first) + Q(x.second.second); }; },
               [](DBM* d) { std::string k, v; Status s = d->PopFirst(&k, &v); return St(s) + Q(k) + Q(v); }, "PopFirst"});
  r.push_back({"push_last", [](AsyncDBM* a) { Arg v(V1); return Stat_(a->PushLast(v, 1000.5)); }, [](DBM* d) { return St(d->PushLast(V1, 1000.5)); }, "PushLast"});
  r.push_back({"process", [](AsyncDBM* a) -> Getter { Arg k(KA); auto f = Keep(a->Process(k, std::make_unique<Proc>(V1), true)); return [f] { auto x = f->get(); return St(x.first) + x.second->log; }; },
               [](DBM* d) { return RunSync([&](Proc* p) { return d->Process(KA, p, true); }, Proc(V1)); }});
  r.push_back({"process_read", [](AsyncDBM* a) -> Getter { Arg k(KA); auto f = Keep(a->Process(k, std::make_unique<Proc>("", true), false)); return [f] { auto x = f->get(); return St(x.first) + x.second->log; }; },
               [](DBM* d) { return RunSync([&](Proc* p) { return d->Process(KA, p, false); }, Proc("", true)); }});
  r.push_back({"process_lambda", [](AsyncDBM* a) -> Getter {
                 Arg k(KA);
                 auto log = std::make_shared<std::string>();
                 auto f = Keep(a->Process(k, [log](std::string_view k, std::string_view v) -> std::string_view { *log += Q(k) + (v.data() == DBM::RecordProcessor::NOOP.data() ? "none" : Q(v)); return DBM::RecordProcessor::REMOVE; }, true));
                 return [f, log] { Status s = f->get(); return St(s) + *log; }; },
               [](DBM* d) { std::string log; Status s = d->Process(KA, [&](std::string_view k, std::string_view v) -> std::string_view { log += Q(k) + (v.data() == DBM::RecordProcessor::NOOP.data() ? "none" : Q(v)); return DBM::RecordProcessor::REMOVE; }, true); return St(s) + log; }});
  r.push_back({"process_first", [](AsyncDBM* a) -> Getter { auto f = Keep(a->ProcessFirst(std::make_unique<Proc>(V1), true)); return [f] { auto x = f->get(); return St(x.first) + x.second->log; }; },
               [](DBM* d) { return RunSync([&](Proc* p) { return d->ProcessFirst(p, true); }, Proc(V1)); }});
  r.push_back({"process_first_lambda", [](AsyncDBM* a) -> Getter { auto log = std::make_shared<std::string>(); auto f = Keep(a->ProcessFirst([log](std::string_view k, std::string_view v) -> std::string_view { *log += Q(k) + Q(v); return DBM::RecordProcessor::NOOP; }, false)); return [f, log] { Status s = f->get(); return St(s) + *log; }; },
               [](DBM* d) { std::string log; Status s = d->ProcessFirst([&](std::string_view k, std::string_view v) -> std::string_view { log += Q(k) + Q(v); return DBM::RecordProcessor::NOOP; }, false); return St(s) + log; }});
  r.push_back({"process_multi", [](AsyncDBM* a) -> Getter {
                 Arg k(KA), l(KC);
                 auto f = Keep(a->ProcessMulti(std::vector<std::pair<std::string_view, std::shared_ptr<Proc>>>{{k, std::make_shared<Proc>(V1)}, {l, std::make_shared<Proc>(V0)}}, true));
                 return [f] { auto x = f->get(); std::string r = St(x.first); for (auto& p : x.second) r += p->log; return r; }; },
               [](DBM* d) { Proc p(V1), q(V0); Status s = d->ProcessMulti({{KA, &p}, {KC, &q}}, true); p.ProcessStatus(s); q.ProcessStatus(s); return St(s) + p.log + q.log; }});
  r.push_back({"process_multi_lambda", [](AsyncDBM* a) -> Getter {
                 Arg k(KA), l(KC);
                 auto log = std::make_shared<std::string>();
                 auto fn = [log](std::string_view k, std::string_view v) -> std::string_view { *log += Q(k) + (v.data() == DBM::RecordProcessor::NOOP.data() ? "none" : Q(v)); return V1; };
                 auto f = Keep(a->ProcessMulti(std::vector<std::pair<std::string_view, DBM::RecordLambdaType>>{{k, fn}, {l, fn}}, true));
                 return [f, log] { Status s = f->get(); return St(s) + *log; }; },
               [](DBM* d) {
                 std::string log;
                 auto fn = [&](std::string_view k, std::string_view v) -> std::string_view { log += Q(k) + (v.data() == DBM::RecordProcessor::NOOP.data() ? "none" : Q(v)); return V1; };
                 Status s = d->ProcessMulti(std::vector<std::pair<std::string_view, DBM::RecordLambdaType>>{{KA, fn}, {KC, fn}}, true);
                 return St(s) + log; }});
  r.push_back({"process_each", [](AsyncDBM* a) -> Getter { auto f = Keep(a->ProcessEach(std::make_unique<Proc>("", true), false)); return [f] { auto x = f->get(); return St(x.first) + x.second->log; }; },
               [](DBM* d) { return RunSync([&](Proc* p) { return d->ProcessEach(p, false); }, Proc("", true)); }});
  r.push_back({"process_each_lambda", [](AsyncDBM* a) -> Getter { auto f = Keep(a->ProcessEach([](std::string_view k, std::string_view v) -> std::string_view { return v.data() == DBM::RecordProcessor::NOOP.data() ? DBM::RecordProcessor::NOOP : std::string_view(V1); }, true)); return [f] { return St(f->get()); }; },
               [](DBM* d) { return St(d->ProcessEach([](std::string_view k, std::string_view v) -> std::string_view { return v.data() == DBM::RecordProcessor::NOOP.data() ? DBM::RecordProcessor::NOOP : std::string_view(V1); }, true)); }});
  r.push_back({"clear", [](AsyncDBM* a) { return Stat_(a->Clear()); }, [](DBM* d) { return St(d->Clear()); }, "Clear"});
  r.push_back({"rebuild", [](AsyncDBM* a) { return Stat_(a->Rebuild()); }, [](DBM* d) { return St(d->Rebuild()); }, "Rebuild"});
  r.push_back({"synchronize", [](AsyncDBM* a) { return Stat_(a->Synchronize(false)); }, [](DBM* d) { return St(d->Synchronize(false)); }, "Synchronize"});
  r.push_back({"export", [](AsyncDBM* a) -> Getter { auto t = std::make_shared<StdTreeDBM>(); auto f = Keep(a->Export(t.get())); return [f, t] { auto x = f->get(); std::string r = St(x); auto it = t->MakeIterator(); it->First(); std::string k, v; while (it->Get(&k, &v) == Status::SUCCESS) { r += Q(k) + Q(v); it->Next(); } return r; }; },
               [](DBM* d) { StdTreeDBM t; std::string r = St(d->Export(&t)); auto it = t.MakeIterator(); it->First(); std::string k, v; while (it->Get(&k, &v) == Status::SUCCESS) { r += Q(k) + Q(v); it->Next(); } return r; }, "Export"});
  r.push_back({"search", [](AsyncDBM* a) -> Getter { Arg m("contain"), p("-of-some-length"); auto f = Keep(a->SearchModal(m, p)); return [f] { auto x = f->get(); return St(x.first) + Join(x.second); }; },
               [](DBM* d) { std::vector<std::string> m; Status s = SearchDBMModal(d, "contain", "-of-some-length", &m); return St(s) + Join(m); }, "SearchModal"});
  return r;
}

struct Kind { std::string name; std::function<std::unique_ptr<DBM>(int)> make; };
static void Fill(DBM* d) { d->Set(KA, V0); d->Set(KB, VN); }
static std::string Content(DBM* d) {
  std::map<std::string, std::string> m;
  d->ProcessEach([&](std::string_view k, std::string_view v) -> std::string_view { if (v.data() != DBM::RecordProcessor::NOOP.data()) m.emplace(k, v); return DBM::RecordProcessor::NOOP; }, false);
  return std::to_string(d->CountSimple()) + "/" + Join(m);
}
// What the synchronous operations give in every order: results of the operations by index, then the content.
static std::set<std::string> Reference(const Kind& kd, const std::vector<const AOp*>& ops, bool fifo) {
  std::vector<int> perm(ops.size());
  for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
  std::set<std::string> res;
  do {
    auto d = kd.make(0);
    Fill(d.get());
    std::vector<std::string> out(ops.size());
    for (int i : perm) out[i] = ops[i]->sync(d.get());
    std::string r;
    for (auto& o : out) r += o + ";";
    res.insert(r + Content(d.get()));
    d->Close();
    if (fifo) break;
  } while (std::next_permutation(perm.begin(), perm.end()));
  return res;
}

static void Case(const Kind& kd, const std::vector<const AOp*>& ops, int workers, int bound, bool wait) {
  std::string name = kd.name + ".w" + std::to_string(workers) + (wait ? "" : ".nowait");
  for (auto* o : ops) name += "." + o->name;
  if (!mc::args().only.empty() && mc::args().only != name) return;
  const auto allowed = Reference(kd, ops, workers == 1);
  mc::RunScenario(name, bound, [&] {
    auto d = kd.make(1);
    Fill(d.get());
    std::vector<Getter> gs;
    std::vector<std::string> out;
    std::atomic_int posts(0);
    int want = 0;
    {
      AsyncDBM a(d.get(), workers);
      a.SetCommonPostprocessor([&](const char* n, const Status& s) { posts++; });
      for (auto* o : ops) { gs.push_back(o->submit(&a)); if (o->post) want++; }
      if (wait) for (auto& g : gs) out.push_back(g());
    }
    if (!wait) for (auto& g : gs) out.push_back(g());
    if (posts.load() != want) Fail("the common postprocessor ran " + std::to_string(posts.load()) + " times for " + std::to_string(want) + " operations");
    std::string r;
    for (auto& o : out) r += o + ";";
    r += Content(d.get());
    d->Close();
    if (!allowed.count(r)) {
      std::string s;
      for (auto& x : allowed) s += "\n  " + x;
      Fail("the results of the asynchronous operations are those of no sequential order\n  " + r + "\nallowed:" + s);
    }
    mc::Outcome(r);
  });
}

static void Futures() {
  for (int workers = 1; workers <= 2; workers++) {
    mc::RunScenario("status_futures.w" + std::to_string(workers), 1, [=] {
      TinyDBM d(1);
      Fill(&d);
      AsyncDBM a(&d, workers);
      StatusFuture f1(a.Set(KC, V1)), f2(a.Get(KA)), f3(a.Increment("n", 5, 10)), f4(a.GetMulti(std::vector<std::string>{KA})), f5(a.SearchModal("begin", "key-a"));
      StatusFuture g(std::move(f1));
      if (f2.Wait(100000) != true || g.Wait(-1) != true || !f3.Wait() || !f4.Wait() || !f5.Wait()) Fail("a wait for an operation fails");
      if (g.Get() != Status::SUCCESS) Fail("wrong status");
      if (f2.GetString() != std::make_pair(Status(Status::SUCCESS), V0)) Fail("wrong string");
      if (f3.GetInteger() != std::make_pair(Status(Status::SUCCESS), (int64_t)15)) Fail("wrong integer");
      auto m = f4.GetStringMap();
      if (m.first != Status::SUCCESS || m.second != std::map<std::string, std::string>{{KA, V0}}) Fail("wrong map");
      auto v = f5.GetStringVector();
      if (v.first != Status::SUCCESS || v.second != std::vector<std::string>{KA}) Fail("wrong vector");
      StatusFuture f6(a.PopFirst());
      f6.Wait(0);
      auto p = f6.GetStringPair();
      if (p.first != Status::SUCCESS || p.second.first.empty()) Fail("wrong pair");
    });
    mc::RunScenario("status_timeout.w" + std::to_string(workers), 2, [=] {
      TinyDBM d(1);
      AsyncDBM a(&d, workers);
      StatusFuture f(a.Set(KC, V1));
      const bool done = f.Wait(0.001);
      mc::Outcome(done ? "done" : "timed out");
      if (done && d.CountSimple() != 1) Fail("a future is ready before its operation has been executed");
      if (!f.Wait()) Fail("an unlimited wait fails");
      if (f.Get() != Status::SUCCESS || d.CountSimple() != 1) Fail("a future is ready before its operation has been executed");
    });
  }
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const bool th = Thorough();
  const auto ops = Ops();
  const Kind tiny = {"tiny", [](int w) { auto d = std::make_unique<TinyDBM>(std::make_unique<PositionalParallelFile>(), 1); d->Open(Scratch() + (w ? "/c.flat" : "/r.flat"), true, File::OPEN_TRUNCATE); return d; }};
  const Kind poly = {"poly", [](int w) { auto d = std::make_unique<PolyDBM>(); d->OpenAdvanced(Scratch() + (w ? "/c.flat" : "/r.flat"), true, File::OPEN_TRUNCATE, {{"dbm", "BabyDBM"}}); return d; }};
  Futures();
  for (auto& o : ops) {
    for (auto* k : {&tiny, &poly}) {
      for (int w = 1; w <= 2; w++) for (bool wait : {true, false}) Case(*k, {&o}, w, w == 1 && k == &tiny ? 2 : 1, wait);
    }
  }
  int n = 0;
  // Operations that are documented or known to be a series of atomic steps: together with others they
  // are only run without preemption.
  const std::set<std::string> series = {"get_multi", "set_multi", "set_multi_new", "remove_multi", "append_multi", "export", "search", "process_each", "process_each_lambda"};
  auto ser = [&](const AOp& o) { return series.count(o.name) > 0; };
  for (auto& o : ops) {
    for (auto& p : ops) {
      const int i = &o - &ops[0], j = &p - &ops[0];
      if (!th && i != j && i != 1 && j != 1 && (i + j) % 6) continue;
      Case(tiny, {&o, &p}, 2, ser(o) || ser(p) ? 0 : th ? 2 : 1, ++n % 2);
      Case(tiny, {&o, &p}, 1, th ? 1 : 0, ++n % 3);
      if (th) Case(poly, {&o, &p}, 2, ser(o) || ser(p) ? 0 : 1, ++n % 2);
    }
  }
  for (size_t i = 0; i < ops.size(); i++) {
    const AOp &a = ops[i], &b = ops[(i + 1) % ops.size()], &c = ops[(i + 3) % ops.size()];
    Case(tiny, {&a, &b, &c}, 2, ser(a) || ser(b) || ser(c) ? 0 : 1, true);
  }
  mc::FinishReport();
  return 0;
}
