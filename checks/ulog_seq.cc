// Every sequence of updates on a database with an update logger: replaying the log gives the content.
#include "tkrzw_sys_config.h"
#include "dbs.h"
#include "seqstub.h"
#include "tkrzw_dbm_poly.h"
#include "tkrzw_dbm_shard.h"
#include "tkrzw_dbm_ulog.h"
#include "tkrzw_file_util.h"
#include "tkrzw_message_queue.h"
using namespace tkrzw;

static LMap Content(DBM* d) {
  LMap m;
  d->ProcessEach([&](std::string_view k, std::string_view v) -> std::string_view {
    if (v.data() != DBM::RecordProcessor::NOOP.data()) m[std::string(k)] = std::string(v);
    return DBM::RecordProcessor::NOOP;
  }, false);
  return m;
}

struct Entry { char kind; std::string k, v; };
// Keeps the calls and passes them on to the logger classes of the library.
class Tee : public DBM::UpdateLogger {
 public:
  std::vector<Entry> log;
  std::vector<DBM::UpdateLogger*> next;
  int syncs = 0;
  std::string bad;
  Status WriteSet(std::string_view k, std::string_view v) override {
    log.push_back({'S', std::string(k), std::string(v)});
    for (auto* n : next) Ok(n->WriteSet(k, v));
    return Status(Status::SUCCESS);
  }
  Status WriteRemove(std::string_view k) override {
    log.push_back({'R', std::string(k), ""});
    for (auto* n : next) Ok(n->WriteRemove(k));
    return Status(Status::SUCCESS);
  }
  Status WriteClear() override {
    log.push_back({'C', "", ""});
    for (auto* n : next) Ok(n->WriteClear());
    return Status(Status::SUCCESS);
  }
  Status Synchronize(bool hard) override {
    syncs++;
    for (auto* n : next) Ok(n->Synchronize(hard));
    return Status(Status::SUCCESS);
  }
  void Apply(LMap* m) {
    for (auto& e : log) { if (e.kind == 'C') m->clear(); else if (e.kind == 'R') m->erase(e.k); else (*m)[e.k] = e.v; }
    log.clear();
  }
 private:
  void Ok(const Status& s) { if (s != Status::SUCCESS) bad = ToString(s); }
};

struct Ctx { LDb db; std::unique_ptr<DBM::Iterator> it; const LTable* t; std::string src; };
struct Op { std::string name; std::function<void(Ctx&)> f; bool once = false; };

static std::vector<Op> AllOps() {
  std::vector<Op> v;
  auto L = [&](const std::string& n, LOp o) { v.push_back({n, [o](Ctx& c) { LExec(c.db, *c.t, o); }}); };
  auto D = [&](const std::string& n, std::function<void(Ctx&)> f) { v.push_back({n, f}); };
  L("set-a1", {Q_SET, 0, 0}); L("set-a22", {Q_SET, 0, 1}); L("set-b60", {Q_SET, 1, 2}); L("set-a-", {Q_SET, 0, 3}); L("set-empty", {Q_SET, 2, 0});
  L("new-a", {Q_SETNEW, 0, 1}); L("del-a", {Q_REMOVE, 0}); L("del-b", {Q_REMOVE, 1}); L("del-empty", {Q_REMOVE, 2}); L("old-a", {Q_SETOLD, 0, 2}); L("delold-a", {Q_REMOVEOLD, 0});
  L("app-a1", {Q_APPEND, 0, 0}); L("app-a60", {Q_APPEND, 0, 2}); L("app-b-", {Q_APPEND, 1, 3}); L("inc-c", {Q_INCR, 3, 0}); L("cmp-a", {Q_CMPEX, 0, 1, 0}); L("cmpnone-a", {Q_CMPREAD, 0, 1});
  L("clear", {Q_CLEAR}); L("rekey-ab", {Q_REKEY, 0, 0, 1}); L("copykey-ab", {Q_COPYKEY, 0, 0, 1}); L("rekey-ae", {Q_REKEY, 0, 0, 2}); L("swap-ab", {Q_SWAP, 0, 0, 1}); L("read2", {Q_READ2, 0, 0, 1});
  L("cmpm-ab", {Q_CMPMULTI, 0, 1, 1}); L("pop", {Q_POP}); L("peekw", {Q_PEEK, 0, 1}); L("toggle-a", {Q_TOGGLE, 0, 0}); L("toggle-b", {Q_TOGGLE, 1, 2}); L("rebuild", {Q_REBUILD}); L("sync", {Q_SYNC});
  L("both-ab", {Q_MULTISET, 0, 2, 1}); L("each+", {Q_EACHADD, 0, 0}); L("push", {Q_PUSH, 0, 1}); L("inc2", {Q_INCR2, 3, 0, 4});
  D("setmulti", [](Ctx& c) { c.db.dbm->SetMulti({{"a", "x"}, {"d", "yy"}}); });
  D("newmulti", [](Ctx& c) { c.db.dbm->SetMulti({{"a", "n"}, {"e", "nn"}}, false); });
  D("appmulti", [](Ctx& c) { c.db.dbm->AppendMulti({{"a", "p"}, {"b", "q"}}, ":"); });
  D("delmulti", [](Ctx& c) { c.db.dbm->RemoveMulti({"b", "zz", "a"}); });
  D("rekey-no", [](Ctx& c) { c.db.dbm->Rekey("a", "b", false); });
  D("cmp-del", [](Ctx& c) { c.db.dbm->CompareExchange("a", DBM::ANY_DATA, std::string_view()); });
  D("cmp-any", [](Ctx& c) { c.db.dbm->CompareExchange("b", DBM::ANY_DATA, "any"); });
  D("cmp-keep", [](Ctx& c) { c.db.dbm->CompareExchange("b", DBM::ANY_DATA, DBM::ANY_DATA); });
  D("proc-del", [](Ctx& c) { c.db.dbm->Process("b", [](std::string_view, std::string_view) { return DBM::RecordProcessor::REMOVE; }, true); });
  D("proc-noop", [](Ctx& c) { c.db.dbm->Process("a", [](std::string_view, std::string_view) { return DBM::RecordProcessor::NOOP; }, true); });
  D("first-set", [](Ctx& c) { c.db.dbm->ProcessFirst([](std::string_view, std::string_view v) -> std::string_view { return v.data() == DBM::RecordProcessor::NOOP.data() ? DBM::RecordProcessor::NOOP : std::string_view("first"); }, true); });
  D("each-", [](Ctx& c) { c.db.dbm->ProcessEach([](std::string_view, std::string_view) { return DBM::RecordProcessor::REMOVE; }, true); });
  D("each-mix", [](Ctx& c) { c.db.dbm->ProcessEach([](std::string_view k, std::string_view) -> std::string_view { return k == "a" ? DBM::RecordProcessor::REMOVE : k == "b" ? std::string_view("bb") : DBM::RecordProcessor::NOOP; }, true); });
  D("multi-3", [](Ctx& c) {
    auto set = [](std::string_view, std::string_view v) -> std::string_view { return v.data() == DBM::RecordProcessor::NOOP.data() ? "fresh" : "again"; };
    auto del = [](std::string_view, std::string_view) { return DBM::RecordProcessor::REMOVE; };
    c.db.dbm->ProcessMulti({{"a", del}, {"a", set}, {"b", set}, {"b", del}, {"a", set}}, true);
  });
  D("iset", [](Ctx& c) { c.it->First(); c.it->Set("iterated"); });
  D("inext", [](Ctx& c) { c.it->Next(); c.it->Set("moved"); });
  D("idel", [](Ctx& c) { c.it->Remove(); });
  D("ijump", [](Ctx& c) { c.it->Jump("b"); });
  D("istep", [](Ctx& c) { std::string k, v; c.it->First(); c.it->Step(&k, &v); c.it->Process([](std::string_view, std::string_view v) -> std::string_view { return v.size() % 2 ? DBM::RecordProcessor::REMOVE : DBM::RecordProcessor::NOOP; }, true); });
  D("import", [](Ctx& c) { TinyDBM s(2); s.Set("a", "imported"); s.Set("c", "I"); s.Export(c.db.dbm.get()); });
  D("reopen", [](Ctx& c) { if (c.db.reopen) { c.it.reset(); Status s = c.db.reopen(); if (s != Status::SUCCESS) mc::Note("reopen: " + ToString(s)); c.it = c.db.dbm->MakeIterator(); } });
  return v;
}

struct Db { std::string n; DbMaker mk; bool skip; bool mem; };
static DbMaker ParamMaker(bool shard, std::map<std::string, std::string> params, const std::string& ext) {
  return [=](LDb* db) {
    db->path = Scratch() + "/casket" + ext;
    ParamDBM* d = shard ? (ParamDBM*)new ShardDBM() : new PolyDBM();
    db->dbm.reset(d);
    Status s = d->OpenAdvanced(db->path, true, File::OPEN_TRUNCATE, params);
    if (s != Status::SUCCESS) { fprintf(stderr, "open: %s\n", ToString(s).c_str()); _exit(9); }
    const std::string path = db->path;
    db->reopen = [=] { auto* u = d->GetUpdateLogger(); Status s = d->Close(); s |= d->OpenAdvanced(path, true, File::OPEN_DEFAULT, params); if (u) d->SetUpdateLogger(u); return s; };
  };
}

class Runner {
 public:
  LTable t;
  std::vector<Op> ops = AllOps();
  double end;
  long n = 0, steps = 0, index = 0;
  bool stop = false;
  Runner() { t.keys = {"a", "b", "", "c", "d"}; end = TimeShare::Wall() + mc::args().time; }

  void One(const Db& d, const std::vector<int>& seq, bool full, const std::vector<LOp>& setup) {
    std::string id = d.n + (full ? "/full/" : "/") + (setup.empty() ? "" : "pre/");
    for (int i : seq) id += ops[i].name + ".";
    const std::string& only = mc::args().only;
    if (!only.empty() ? only != id : index++ % mc::args().num_workers != mc::args().worker) return;
    if (stop) { mc::Stat("incomplete", 1); return; }
    if (only.empty() && TimeShare::Wall() > end) { stop = true; mc::Note("time ran out in " + id); return; }
    mc::SetContext(id);
    alarm(20);
    const double t0 = TimeShare::Wall();
    Do(d, seq, full, setup, id);
    if (getenv("VP_PROF")) { mc::Stat("ms " + d.n + " " + std::to_string(seq.size()) + (full ? " full" : ""), (TimeShare::Wall() - t0) * 1000); mc::Stat("n " + d.n + " " + std::to_string(seq.size()) + (full ? " full" : ""), 1); }
    alarm(0);
    n++;
    steps += seq.size();
  }
  void Gen(const Db& d, std::vector<int>& pre, size_t len, bool full, const std::vector<LOp>& setup, const std::vector<int>& alphabet) {
    if (pre.size() == len) { One(d, pre, full, setup); return; }
    for (int i : alphabet) { pre.push_back(i); Gen(d, pre, len, full, setup, alphabet); pre.pop_back(); }
  }

 private:
  void Do(const Db& d, const std::vector<int>& seq, bool full, const std::vector<LOp>& setup, const std::string& id) {
    Ctx c;
    c.t = &t;
    d.mk(&c.db);
    DBM* dbm = c.db.dbm.get();
    for (auto& o : setup) LExec(c.db, t, o);
    if (d.skip) c.db.sync(false);
    c.it = dbm->MakeIterator();
    const LMap init = Content(dbm);
    LMap m = init;
    Tee tee;
    static const std::string delim = "\x01|\x01";
    DBMUpdateLoggerStrDeque dq(delim);
    TinyDBM rep(3);
    BabyDBM rep2;
    DBMUpdateLoggerDBM ldb(&rep), ldb2(&rep2);
    MessageQueue mq;
    std::unique_ptr<DBMUpdateLoggerMQ> lmq;
    const std::string prefix = Scratch() + "/ulog";
    if (full) {
      for (auto& p : m) { rep.Set(p.first, p.second); rep2.Set(p.first, p.second); }
      Status s = mq.Open(prefix, 100, MessageQueue::OPEN_TRUNCATE);
      if (s != Status::SUCCESS) { mc::Violation(id, "MessageQueue::Open: " + ToString(s)); return; }
      lmq = std::make_unique<DBMUpdateLoggerMQ>(&mq, 300, 70000, 12345);
      tee.next = {&dq, &ldb, &ldb2, lmq.get()};
    }
    dbm->SetUpdateLogger(&tee);
    if (dbm->GetUpdateLogger() != &tee) { mc::Violation(id, "GetUpdateLogger"); return; }
    std::string trace, text;
    for (int i : seq) {
      trace += (trace.empty() ? "" : " ") + ops[i].name;
      const int syncs = tee.syncs;
      ops[i].f(c);
      if (ops[i].name == "sync" && tee.syncs != syncs + 1) { mc::Violation(id, trace + ": the logger is not synchronized"); return; }
      for (auto& e : tee.log) text += " " + std::string(1, e.kind) + ":" + LBrief(e.k) + ":" + LBrief(e.v);
      tee.Apply(&m);
      if (!d.skip) {
        const LMap now = Content(dbm);
        if (now != m) { mc::Violation(id, trace + ": the log gives " + LDump(m) + "and the database has " + LDump(now) + "log:" + text); return; }
      }
    }
    if (d.skip) {
      c.db.sync(false);
      tee.Apply(&m);
      const LMap now = Content(dbm);
      if (now != m) { mc::Violation(id, trace + ": the log gives " + LDump(m) + "and the database has " + LDump(now) + "log:" + text); return; }
    }
    dbm->SetUpdateLogger(nullptr);
    if (dbm->GetUpdateLogger() != nullptr) { mc::Violation(id, trace + ": a logger after removing it"); return; }
    // Without the logger.
    dbm->Set("unlogged", "1");
    dbm->Remove("unlogged");
    if (!tee.log.empty()) { mc::Violation(id, trace + ": an entry after removing the logger"); return; }
    if (!full) return;
    if (!tee.bad.empty()) { mc::Violation(id, trace + ": a logger fails: " + tee.bad); return; }
    auto same = [&](const LMap& x, const char* what) { if (x != m) mc::Violation(id, trace + ": " + what + " has " + LDump(x) + "instead of " + LDump(m)); };
    same(Content(&rep), "the replica");
    same(Content(&rep2), "the ordered replica");
    LMap q = init;
    std::string line;
    while (dq.PopFront(&line)) {
      const size_t p = line.find(delim);
      const std::string op = line.substr(0, p);
      if (op == "CLEAR") { q.clear(); continue; }
      const std::string rest = line.substr(p + delim.size());
      if (op == "REMOVE") q.erase(rest);
      else q[rest.substr(0, rest.find(delim))] = rest.substr(rest.find(delim) + delim.size());
    }
    same(q, "the log in text");
    Status s = mq.Close();
    if (s != Status::SUCCESS) { mc::Violation(id, trace + ": closing the queue: " + ToString(s)); return; }
    auto replay = [&](double mints, int sid, int did, bool match, const char* what) {
      BabyDBM b;
      for (auto& p : init) b.Set(p.first, p.second);
      Status s = DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(&b, prefix, mints, sid, did);
      if (s != Status::SUCCESS) { mc::Violation(id, trace + ": " + what + ": " + ToString(s)); return; }
      const LMap x = Content(&b);
      if (x != (match ? m : init)) mc::Violation(id, trace + ": " + what + " gives " + LDump(x) + "instead of " + LDump(match ? m : init));
    };
    replay(0, INT32MIN + 1, INT32MIN + 1, true, "the queue");
    replay(12345, 300, 70000, true, "the queue with matching identifiers");
    replay(12346, 300, 70000, false, "the queue from a later time");
    if (seq.size() > 1 && !Thorough()) return;
    replay(0, 301, 70000, false, "the queue of another server");
    replay(0, 300, 6, false, "the queue of another database");
    replay(0, -300, 70000, false, "the queue without the server");
    replay(0, 300, -70000, false, "the queue without the database");
    replay(0, -1, -2, true, "the queue without others");
  }
};

// The codec of the messages.
static void Codec(Runner& r) {
  const std::vector<int> ids = {0, 1, 127, 128, 16383, 16384, 2097152, 268435456, INT32MAX};
  const std::vector<std::string> texts = {"", "k", std::string("\x00\xff", 2), std::string(127, 'a'), std::string(128, 'b'), std::string(3000, 'c'), std::string(5000, 'd'), std::string(20000, 'e')};
  const std::string prefix = Scratch() + "/codec";
  for (int sid : ids) for (int did : ids) {
    if (r.index++ % mc::args().num_workers != mc::args().worker && mc::args().only.empty()) continue;
    const std::string id = "codec/" + std::to_string(sid) + "." + std::to_string(did);
    if (!mc::args().only.empty() && mc::args().only != id) continue;
    mc::SetContext(id);
    for (bool over : {false, true}) {
      MessageQueue mq;
      mq.Open(prefix, 1 << 20, MessageQueue::OPEN_TRUNCATE);
      DBMUpdateLoggerMQ l(&mq, over ? 77 : sid, did, 5);
      std::vector<Entry> want;
      DBMUpdateLoggerMQ::OverwriteThreadServerID(INT32MIN);
      l.WriteSet("no", "no"); l.WriteRemove("no"); l.WriteClear();
      DBMUpdateLoggerMQ::OverwriteThreadServerID(over ? sid : -1);
      for (auto& k : texts) {
        for (auto& v : texts) { if (l.WriteSet(k, v) != Status::SUCCESS) mc::Violation(id, "WriteSet"); want.push_back({'S', k, v}); }
        if (l.WriteRemove(k) != Status::SUCCESS) mc::Violation(id, "WriteRemove");
        want.push_back({'R', k, ""});
      }
      l.WriteClear();
      want.push_back({'C', "", ""});
      DBMUpdateLoggerMQ::OverwriteThreadServerID(-1);
      auto rd = mq.MakeReader(0);
      for (auto& e : want) {
        int64_t ts = -1;
        std::string msg;
        Status s = rd->Read(&ts, &msg, 0);
        DBMUpdateLoggerMQ::UpdateLog op;
        if (s == Status::SUCCESS) s = DBMUpdateLoggerMQ::ParseUpdateLog(msg, &op);
        const char kind = op.op_type == DBMUpdateLoggerMQ::OP_SET ? 'S' : op.op_type == DBMUpdateLoggerMQ::OP_REMOVE ? 'R' : op.op_type == DBMUpdateLoggerMQ::OP_CLEAR ? 'C' : '?';
        if (s != Status::SUCCESS || ts != 5 || kind != e.kind || op.server_id != sid || op.dbm_index != did || op.key != e.k || op.value != e.v) { mc::Violation(id, "message of " + std::string(1, e.kind) + " " + std::to_string(e.k.size()) + " " + std::to_string(e.v.size()) + ": " + ToString(s)); return; }
      }
      int64_t ts = -1;
      std::string msg;
      if (rd->Read(&ts, &msg, 0) != Status::INFEASIBLE_ERROR) mc::Violation(id, "an extra message");
      rd.reset();
      mq.Close();
    }
    r.n++;
  }
  // Cut and altered messages: reported or parsed within their bounds.
  if (mc::args().worker == 0 && mc::args().only.empty()) {
    std::vector<std::string> good;
    MessageQueue mq;
    mq.Open(prefix, 1 << 20, MessageQueue::OPEN_TRUNCATE);
    DBMUpdateLoggerMQ l(&mq, 300, 1, 5);
    l.WriteSet("key", "value"); l.WriteSet("", ""); l.WriteRemove("key"); l.WriteRemove(""); l.WriteClear(); l.WriteSet(std::string(200, 'k'), "v");
    auto rd = mq.MakeReader(0);
    int64_t ts;
    std::string msg;
    while (rd->Read(&ts, &msg, 0) == Status::SUCCESS) good.push_back(msg);
    auto check = [&](const std::string& x, const std::string& what) {
      std::unique_ptr<char[]> p(new char[x.size()]);   // exactly as long, for the sanitizer
      memcpy(p.get(), x.data(), x.size());
      DBMUpdateLoggerMQ::UpdateLog op;
      mc::SetContext("codec/" + what);
      Status s = DBMUpdateLoggerMQ::ParseUpdateLog(std::string_view(p.get(), x.size()), &op);
      if (s == Status::SUCCESS) {
        auto in = [&](std::string_view v) { return v.empty() || (v.data() >= p.get() && v.size() <= x.size() && v.data() + v.size() <= p.get() + x.size()); };
        if (!in(op.key) || !in(op.value) || (int)op.op_type < 1 || (int)op.op_type > 3) mc::Violation("codec/" + what, "parsed out of bounds");
      } else if (s != Status::BROKEN_DATA_ERROR) mc::Violation("codec/" + what, ToString(s));
      r.n++;
    };
    for (size_t g = 0; g < good.size(); g++) {
      for (size_t i = 0; i < good[g].size(); i++) check(good[g].substr(0, i), "cut" + std::to_string(g) + "." + std::to_string(i));
      for (size_t i = 0; i < std::min<size_t>(good[g].size(), 16); i++)
        for (int b = 0; b < 256; b++) { auto x = good[g]; x[i] = b; check(x, "byte" + std::to_string(g) + "." + std::to_string(i) + "." + std::to_string(b)); }
    }
    // Sizes that do not fit.
    for (uint64_t a : {0ull, 1ull, 3ull, 127ull, 1ull << 31, (1ull << 32) - 1, (1ull << 32) - 5, 1ull << 32, (1ull << 32) + 2, 1ull << 63, ~0ull, ~0ull - 4})
      for (uint64_t b : {0ull, 1ull, 3ull, 5ull, 10ull, 127ull, 1ull << 31, (1ull << 32) - 1, (1ull << 32) - 5, 1ull << 32, (1ull << 32) + 5, 1ull << 63, ~0ull, ~0ull - 4})
        for (int rest : {0, 1, 5, 8, 130})
          for (int op : {0xA1, 0xA2}) {
            char buf[64];
            char* w = buf;
            *w++ = op; *w++ = 1; *w++ = 1;
            w += WriteVarNum(w, a);
            if (op == 0xA1) w += WriteVarNum(w, b);
            check(std::string(buf, w - buf) + std::string(rest, 'x'), "sizes" + std::to_string(op) + "." + std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(rest));
          }
  }
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const bool th = Thorough();
  const std::vector<Db> dbs = {
    {"tiny", TinyMaker(), false, true}, {"baby", BabyMaker(), false, true}, {"cache", CacheMaker(), false, true},
    {"stdhash", StdHashMaker(), false, true}, {"stdtree", StdTreeMaker(), false, true},
    {"hash in-place", HashMaker(TinyHash(false, 1)), false, false}, {"hash appending", HashMaker(TinyHash(true, 2)), false, false},
    {"tree", TreeMaker(TinyTree()), false, false}, {"skip", SkipMaker(TinySkip()), true, false},
    {"poly tiny", ParamMaker(false, {{"dbm", "TinyDBM"}, {"num_buckets", "3"}}, ".tkmt"), false, true},
    {"shards of tiny", ParamMaker(true, {{"dbm", "TinyDBM"}, {"num_buckets", "3"}, {"num_shards", "3"}}, ".tkmt"), false, true},
    {"shards of hash", ParamMaker(true, {{"dbm", "HashDBM"}, {"num_shards", "2"}, {"num_buckets", "2"}}, ".tkh"), false, false},
    {"shards of baby", ParamMaker(true, {{"dbm", "BabyDBM"}, {"num_shards", "2"}}, ".tkmb"), false, true},
  };
  Runner r;
  std::vector<int> all, small;
  for (size_t i = 0; i < r.ops.size(); i++) all.push_back(i);
  for (auto* n : {"set-a1", "set-b60", "set-empty", "del-a", "app-a60", "inc-c", "clear", "rekey-ab", "swap-ab", "pop", "toggle-a", "rebuild", "sync", "each+", "each-mix", "multi-3", "iset", "inext", "idel", "reopen"})
    for (size_t i = 0; i < r.ops.size(); i++) if (r.ops[i].name == n) small.push_back(i);
  const std::vector<LOp> three = {{Q_SET, 0, 0}, {Q_SET, 1, 2}, {Q_SET, 4, 1}};
  Codec(r);
  std::vector<int> pre;
  for (size_t len = 1; len <= 2; len++)
    for (auto& d : dbs) { r.Gen(d, pre, len, len == 1, {}, all); r.Gen(d, pre, len, len == 1 || d.n == "tiny" || d.n == "shards of hash", three, all); }
  for (auto& d : dbs) r.Gen(d, pre, 3, false, three, small);
  for (auto& d : dbs) if (th || (d.mem && d.n != "stdtree" && d.n != "poly tiny")) r.Gen(d, pre, 3, false, {}, all);
  if (th) {
    for (auto& d : dbs) { r.Gen(d, pre, 3, false, three, all); }
    for (auto& d : dbs) r.Gen(d, pre, 4, false, three, small);
  }
  mc::Stat("states", r.n);
  mc::Stat("transitions", r.steps);
  mc::Stat("traces", r.n);
  mc::FinishReport();
}
