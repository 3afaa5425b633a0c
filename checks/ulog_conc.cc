// The update log against the effects of concurrent updates: replaying it in its order over the initial content gives the final content.
#include "dbs.h"
#include "tkrzw_dbm_ulog.h"
#include "tkrzw_message_queue.h"
using namespace tkrzw;

enum LogKind { L_DEQUE, L_DBM, L_MQ };

struct Log {
  LogKind kind;
  std::unique_ptr<DBM::UpdateLogger> ulog;
  DBMUpdateLoggerStrDeque* dq = nullptr;
  std::unique_ptr<DBM> replica;
  std::unique_ptr<MessageQueue> mq;
  std::string prefix;

  Log(LogKind k, const LMap& init) : kind(k) {
    if (k == L_DEQUE) {
      ulog.reset(dq = new DBMUpdateLoggerStrDeque("\t"));
    } else if (k == L_DBM) {
      auto* d = new TinyDBM(3);
      replica.reset(d);
      for (auto& p : init) d->Set(p.first, p.second);
      ulog.reset(new DBMUpdateLoggerDBM(d));
    } else {
      prefix = Scratch() + "/ulog";
      mq = std::make_unique<MessageQueue>();
      Status s = mq->Open(prefix, 1 << 20, MessageQueue::OPEN_TRUNCATE);
      if (s != Status::SUCCESS) mc::Fail("MessageQueue::Open: " + ToString(s));
      ulog.reset(new DBMUpdateLoggerMQ(mq.get(), 3, 5));
    }
  }
  // Applies the log to the content.
  std::string Replay(LMap* m, std::string* text) {
    if (kind == L_DEQUE) {
      std::string line;
      while (dq->PopFront(&line)) {
        *text += "  " + LBrief(line) + "\n";
        const size_t p = line.find('\t');
        const std::string op = line.substr(0, p);
        if (op == "CLEAR") { m->clear(); continue; }
        const std::string rest = line.substr(p + 1);
        if (op == "REMOVE") { m->erase(rest); continue; }
        const size_t q = rest.find('\t');
        if (op != "SET" || q == std::string::npos) return "unknown entry " + LBrief(line);
        (*m)[rest.substr(0, q)] = rest.substr(q + 1);
      }
      return "";
    }
    if (kind == L_MQ) {
      auto rd = mq->MakeReader(0);
      int64_t ts = 0;
      std::string msg;
      while (true) {
        Status s = rd->Read(&ts, &msg, 0);
        if (s == Status::INFEASIBLE_ERROR) break;
        if (s != Status::SUCCESS) return "reading the queue: " + ToString(s);
        DBMUpdateLoggerMQ::UpdateLog op;
        s = DBMUpdateLoggerMQ::ParseUpdateLog(msg, &op);
        if (s != Status::SUCCESS) return "ParseUpdateLog: " + ToString(s);
        if (op.server_id != 3 || op.dbm_index != 5) return "wrong ids";
        *text += "  " + std::to_string(op.op_type) + " " + LBrief(std::string(op.key)) + " " + LBrief(std::string(op.value)) + "\n";
      }
      rd.reset();
      TinyDBM d(3);
      for (auto& p : *m) d.Set(p.first, p.second);
      Status s = mq->Close();
      if (s != Status::SUCCESS) return "closing the queue: " + ToString(s);
      s = DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(&d, prefix, 0, 3, 5);
      if (s != Status::SUCCESS) return "ApplyUpdateLogFromFiles: " + ToString(s);
      *m = Read(&d);
      return "";
    }
    *m = Read(replica.get());
    return "";
  }
  static LMap Read(DBM* d) {
    LMap m;
    d->ProcessEach([&](std::string_view k, std::string_view v) -> std::string_view {
      if (v.data() != DBM::RecordProcessor::NOOP.data()) m.emplace(k, v);
      return DBM::RecordProcessor::NOOP;
    }, false);
    return m;
  }
};

static void RunLog(const std::string& name, const LTable& t, const LScen& sc, const DbMaker& make, LogKind kind, double share) {
  static const char* kn[] = {"", " to a replica", " to a queue"};
  mc::RunScenario(name + "." + sc.name + kn[kind], sc.bound, [&] {
    mc::NoSched(true);
    LDb db;
    make(&db);
    for (auto& o : sc.setup) LExec(db, t, o);
    if (db.skip) db.sync(false);
    std::string err;
    LMap m = LContent(db, t, &err);
    if (!err.empty()) mc::Fail("at the start: " + err);
    const LMap init = m;
    Log log(kind, m);
    db.dbm->SetUpdateLogger(log.ulog.get());
    std::vector<std::vector<std::string>> res(sc.threads.size());
    std::vector<std::function<void()>> fs;
    for (size_t i = 0; i < sc.threads.size(); i++) {
      res[i].resize(sc.threads[i].size());
      fs.push_back([&, i] { for (size_t j = 0; j < sc.threads[i].size(); j++) res[i][j] = LExec(db, t, sc.threads[i][j]); });
    }
    mc::NoSched(false);
    Par(fs);
    mc::NoSched(true);
    std::string hist;
    for (size_t i = 0; i < res.size(); i++)
      for (size_t j = 0; j < res[i].size(); j++) {
        const LOp& o = sc.threads[i][j];
        hist += "  T" + std::to_string(i + 1) + " " + kLNames[o.kind] + "(" + std::to_string(o.k) + "," + std::to_string(o.v) + "," + std::to_string(o.k2) + ") -> " + LBrief(res[i][j]) + "\n";
        if (res[i][j].find("E:") == 0) mc::Fail("failed operation:\n" + hist);
      }
    if (db.skip && db.sync(false) != Status::SUCCESS) mc::Fail("Synchronize");
    db.dbm->SetUpdateLogger(nullptr);
    const LMap fin = LContent(db, t, &err);
    if (!err.empty()) mc::Fail("at the end: " + err + "\n" + hist);
    std::string text;
    err = log.Replay(&m, &text);
    if (!err.empty()) mc::Fail(err + "\n" + hist);
    if (m != fin)
      mc::Fail("the log does not lead to the final content:\n  start: " + LDump(init) + "\n" + hist + " log:\n" + text + "  replayed: " + LDump(m) + "\n  database: " + LDump(fin));
    mc::Outcome(LDump(fin) + text);
    db.dbm.reset();
    log.ulog.reset();
    log.mq.reset();
    log.replica.reset();
    mc::NoSched(false);
  }, share);
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  mc::FsScope(Scratch());
  const bool th = Thorough();
  const int b2 = th ? 4 : 2, b3 = th ? 3 : 1;
  LTable t;
  t.keys = {"a", "b", "c", "d"};
  const std::vector<LScen> sc = {
    {"set-set", {}, {{{Q_SET, 0, 0}, {Q_SET, 0, 1}}, {{Q_SET, 0, 2}}}, b2},
    {"append-append", {}, {{{Q_APPEND, 0, 0}}, {{Q_APPEND, 0, 1}, {Q_APPEND, 0, 2}}}, b2},
    {"append-set", {{Q_SET, 0, 1}}, {{{Q_APPEND, 0, 0}, {Q_APPEND, 0, 2}}, {{Q_SET, 0, 1}}}, b2},
    {"incr-remove", {}, {{{Q_INCR, 0, 0}, {Q_INCR, 0, 1}}, {{Q_REMOVE, 0}, {Q_INCR, 0, 2}}}, b2},
    {"set-remove", {{Q_SET, 0, 0}, {Q_SET, 1, 0}}, {{{Q_SET, 0, 1}, {Q_REMOVE, 1}}, {{Q_REMOVE, 0}, {Q_SET, 1, 2}}}, b2},
    {"clear-set", {{Q_SET, 0, 0}}, {{{Q_CLEAR}}, {{Q_SET, 0, 1}, {Q_SET, 1, 0}}}, b2},
    {"clear-append", {{Q_SET, 1, 0}}, {{{Q_CLEAR}}, {{Q_APPEND, 0, 0}, {Q_APPEND, 1, 1}}}, b2},
    {"rekey-set", {{Q_SET, 0, 0}}, {{{Q_REKEY, 0, 0, 1}}, {{Q_SET, 1, 1}, {Q_SET, 0, 2}}}, b2},
    {"swap-append", {{Q_SET, 0, 0}, {Q_SET, 1, 1}}, {{{Q_SWAP, 0, 0, 1}}, {{Q_APPEND, 0, 1}, {Q_APPEND, 1, 0}}}, b2},
    {"multi-multi", {}, {{{Q_MULTISET, 0, 0, 1}}, {{Q_MULTISET, 1, 1, 0}}}, b2},
    {"incr2-cmp", {}, {{{Q_INCR2, 0, 0, 1}}, {{Q_CMPREAD, 0, 0}, {Q_CMPMULTI, 0, 1, 1}}}, b2},
    {"pop-set", {{Q_SET, 0, 0}, {Q_SET, 1, 0}}, {{{Q_POP}}, {{Q_SET, 0, 1}, {Q_REMOVE, 1}}}, b2},
    {"each-set", {{Q_SET, 0, 0}, {Q_SET, 1, 0}}, {{{Q_EACHADD, 0, 1}}, {{Q_SET, 0, 2}, {Q_SET, 1, 1}}}, b2},
    {"toggle-toggle", {}, {{{Q_TOGGLE, 0, 0}, {Q_TOGGLE, 0, 1}}, {{Q_TOGGLE, 0, 2}}}, b2},
    {"push-pop", {}, {{{Q_PUSH, 0, 0}, {Q_POP}}, {{Q_PUSH, 0, 1}}}, b2},
    {"rebuild-set", {{Q_SET, 0, 0}, {Q_SET, 1, 0}}, {{{Q_REBUILD}}, {{Q_SET, 0, 1}, {Q_REMOVE, 1}}}, b2},
    {"sync-append", {{Q_SET, 0, 0}}, {{{Q_SYNC}}, {{Q_APPEND, 0, 1}, {Q_APPEND, 0, 0}}}, b2},
    {"3append", {}, {{{Q_APPEND, 0, 0}}, {{Q_APPEND, 0, 1}}, {{Q_SET, 0, 2}}}, b3},
    {"3clear", {{Q_SET, 0, 0}}, {{{Q_CLEAR}}, {{Q_SET, 0, 1}}, {{Q_REMOVE, 0}}}, b3},
  };
  struct Db { std::string n; DbMaker mk; bool ordered, skip; };
  std::vector<Db> dbs = {
    {"hash in-place", HashMaker(TinyHash(false, 1)), false, false},
    {"hash appending", HashMaker(TinyHash(true, 1)), false, false},
    {"tree", TreeMaker(TinyTree()), true, false},
    {"tiny", TinyMaker(), false, false},
    {"baby", BabyMaker(), true, false},
    {"cache", CacheMaker(), false, false},
    {"stdhash", StdHashMaker(), false, false},
    {"stdtree", StdTreeMaker(), true, false},
    {"skip", SkipMaker(TinySkip()), true, true},
  };
  LinSuite s;
  int n = 0;
  for (auto& d : dbs)
    for (auto& x : sc) {
      n++;
      if (d.skip && x.name != "set-set" && x.name != "set-remove" && x.name != "multi-multi" && x.name != "clear-set" && x.name != "sync-append" && x.name != "rebuild-set" && x.name != "3clear") continue;
      auto y = x;
      // The updates of SkipDBM do not see each other before a synchronization.
      if (d.skip) for (auto& v : y.threads) for (auto& o : v) if (o.kind == Q_APPEND) o.kind = Q_SET;
      s.AddRun([=](double share) { RunLog(d.n, t, y, d.mk, L_DEQUE, share); });
      if (th || n % 6 == 0) s.AddRun([=](double share) { RunLog(d.n, t, y, d.mk, L_DBM, share); });
      if (th || n % 6 == 3) { auto z = y; if (!th) z.bound = 1; s.AddRun([=](double share) { RunLog(d.n, t, z, d.mk, L_MQ, share); }); }
    }
  s.Run();
  mc::FinishReport();
}
