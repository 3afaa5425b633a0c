// Iterators against concurrent updates: what they read and edit is linearizable with everything else, untouched records are
// visited exactly once, and they end, under every schedule up to the bound.
#include "dbs.h"
using namespace tkrzw;

enum Pass { FORWARD, BACKWARD, JUMP, JUMPLOWER, EDIT, ERASE, EDITBACK, STEPS };
struct IScen {
  std::string name;
  std::vector<LOp> setup;
  std::vector<Pass> iters;                    // threads that iterate
  std::vector<std::vector<LOp>> threads;      // threads that update
  int bound = 2;
  bool close = false;                         // another thread closes the database
};

static void RunIter(const std::string& dbname, LTable t, const IScen& sc, const DbMaker& make, double share) {
  mc::RunScenario(dbname + "." + sc.name, sc.bound, [&] {
    mc::NoSched(true);
    LDb db;
    make(&db);
    LState init;
    for (auto& o : sc.setup) {
      const std::string r = LExec(db, t, o);
      if (!LAllow(init, t, o, r, db.ordered, db.skip)) mc::Fail("the set-up operation " + std::string(kLNames[o.kind]) + " gives " + LBrief(r));
    }
    const size_t ni = sc.iters.size(), nu = sc.threads.size();
    std::vector<std::vector<LRec>> recs(ni + nu);
    std::vector<std::string> errs(ni + nu);
    std::vector<std::vector<std::string>> visited(ni);
    std::vector<std::unique_ptr<DBM::Iterator>> its;
    for (size_t i = 0; i < ni; i++) its.push_back(db.dbm->MakeIterator());
    for (auto& r : recs) r.reserve(64);
    std::vector<std::function<void()>> fs;
    for (size_t i = 0; i < ni; i++) {
      fs.push_back([&, i] {
        const Pass p = sc.iters[i];
        DBM::Iterator* it = its[i].get();
        const bool back = p == BACKWARD || p == EDITBACK || p == JUMPLOWER;
        auto bad = [&](const Status& s, const char* what) {
          if (s == Status::SUCCESS || s == Status::NOT_FOUND_ERROR) return false;
          if (sc.close && s == Status::PRECONDITION_ERROR) return false;
          if (errs[i].empty()) errs[i] = std::string(what) + ": " + ToString(s);
          return true;
        };
        mc::Point();
        Status s = p == JUMP ? it->Jump(t.keys[1]) : p == JUMPLOWER ? it->JumpLower(t.keys[3], true) : back ? it->Last() : it->First();
        if (bad(s, "positioning")) return;
        // A jump of an unordered database to a key that is not there fails.
        if (s != Status::SUCCESS) { visited[i].push_back("none"); return; }
        for (int n = 0; n < 30; n++) {
          LRec r;
          r.thread = i + 1;
          mc::Point();
          r.inv = mc::Now();
          std::string key, val, next;
          bool seen = false;
          if (p == EDIT || p == ERASE || p == EDITBACK) {
            s = it->Process([&](std::string_view k, std::string_view v) -> std::string_view {
              if (v.data() == DBM::RecordProcessor::NOOP.data()) return DBM::RecordProcessor::NOOP;
              key = k;
              val = v;
              seen = true;
              if (p == ERASE) return DBM::RecordProcessor::REMOVE;
              next = val + "," + t.values[1];
              return next;
            }, true);
          } else {
            s = it->Get(&key, &val);
            seen = s == Status::SUCCESS;
          }
          r.res = mc::Now();
          if (bad(s, "reading")) return;
          if (s == Status::SUCCESS && seen) {
            size_t k = std::find(t.keys.begin(), t.keys.end(), key) - t.keys.begin();
            if (k == t.keys.size()) { errs[i] = "a record that never was: " + LBrief(key); return; }
            visited[i].push_back(key);
            r.op = {p == ERASE ? Q_REMOVEOLD : p == EDIT || p == EDITBACK ? Q_ITAPPEND : Q_GET, (int)k, 1};
            r.r = "S" + val;
            recs[i].push_back(r);
          }
          if (s == Status::NOT_FOUND_ERROR || s == Status::PRECONDITION_ERROR) {
            // Iterators of the unordered classes can stand at a removed record and go on.
            Status s2 = back ? it->Previous() : it->Next();
            if (bad(s2, "moving")) return;
            if (s2 != Status::SUCCESS) return;
            continue;
          }
          if (p == ERASE && db.ordered) continue;   // the iterator is at the next record by itself
          if (p == ERASE) {
            // The iterators of the unordered classes move to the next record or say that there is none.
            continue;
          }
          s = back ? it->Previous() : it->Next();
          if (bad(s, "moving")) return;
          if (s != Status::SUCCESS) return;
        }
        errs[i] = "the iteration does not end";
      });
    }
    for (size_t i = 0; i < nu; i++) {
      auto& rv = recs[ni + i];
      rv.resize(sc.threads[i].size());
      fs.push_back([&, i] {
        for (size_t j = 0; j < sc.threads[i].size(); j++) {
          LRec& r = recs[ni + i][j];
          r.op = sc.threads[i][j];
          r.thread = ni + i + 1;
          mc::Point();
          r.inv = mc::Now();
          r.r = LExec(db, t, r.op);
          r.res = mc::Now();
        }
      });
    }
    Status cs(Status::SUCCESS);
    if (sc.close) fs.push_back([&] { mc::Point(); cs = db.dbm->Close(); });
    mc::NoSched(false);
    Par(fs);
    mc::NoSched(true);
    std::vector<LRec> hist;
    std::vector<std::pair<LRec, std::map<std::string, int>>> eaches;
    for (auto& v : recs)
      for (auto& r : v) {
        if (r.op.kind != Q_EACHADD && r.op.kind != Q_EACHGET) { hist.push_back(r); continue; }
        // ProcessEach is atomic for every single record.
        std::map<std::string, int> seen;
        if (r.r[0] != 'S') mc::Fail("ProcessEach: " + r.r);
        size_t b = 1;
        while (b < r.r.size()) {
          const size_t e = r.r.find(';', b), m = r.r.find('=', b);
          const std::string k = r.r.substr(b, m - b);
          seen[k]++;
          LRec x = r;
          x.op = {r.op.kind == Q_EACHADD ? Q_EACHREC : Q_GET, (int)(std::find(t.keys.begin(), t.keys.end(), k) - t.keys.begin()), r.op.v};
          if (x.op.k == (int)t.keys.size()) mc::Fail("ProcessEach gives a record that never was: " + LBrief(k));
          x.r = "S" + r.r.substr(m + 1, e - m - 1);
          hist.push_back(x);
          b = e + 1;
        }
        eaches.push_back({r, seen});
      }
    std::string path;
    for (size_t i = 0; i < ni; i++) {
      path += "  iterator " + std::to_string(i + 1) + ":";
      for (auto& k : visited[i]) path += " " + LBrief(k);
      path += "\n";
    }
    const std::string story = "  start: " + LDump(init.m) + "\n" + LHist(hist) + path;
    for (auto& e : errs) if (!e.empty()) mc::Fail(e + "\n" + story);
    if (cs != Status::SUCCESS) mc::Fail("Close: " + ToString(cs));
    std::set<std::string> touched;
    bool whole = false, erasing = false;
    for (auto& v : sc.threads)
      for (auto& o : v) {
        if (o.kind == Q_CLEAR || o.kind == Q_REBUILD) whole = true;
        if (o.kind != Q_PEEK && o.kind != Q_EACHADD && o.kind != Q_EACHGET && o.kind != Q_GET && o.kind != Q_COUNT && o.kind != Q_SYNC) { touched.insert(t.keys[o.k]); if (o.kind == Q_REKEY || o.kind == Q_SWAP || o.kind == Q_MULTISET) touched.insert(t.keys[o.k2]); }
      }
    for (auto p : sc.iters) if (p == ERASE) erasing = true;
    const bool stdc = dbname.rfind("std", 0) == 0;
    bool removing = erasing;
    for (auto& v : sc.threads) for (auto& o : v) removing |= o.kind == Q_REMOVE;
    if (!erasing && !whole)
      for (auto& e : eaches)
        for (auto& p : init.m)
          if (!touched.count(p.first) && (!e.second.count(p.first) || e.second.at(p.first) != 1)) mc::Fail("ProcessEach does not visit " + LBrief(p.first) + " once\n" + story);
    if (!sc.close && !whole)
      for (size_t i = 0; i < ni; i++) {
        std::map<std::string, int> cnt;
        for (auto& k : visited[i]) cnt[k]++;
        for (auto& p : init.m) {
          if (touched.count(p.first)) continue;
          const Pass ps = sc.iters[i];
          if (ps == JUMP) { if (!db.ordered || p.first < t.keys[1]) continue; }
          if (ps == JUMPLOWER && p.first > t.keys[3]) continue;
          // A record that another iterator removed may be missing.
          if (erasing && (ps != ERASE || ni > 1) && cnt[p.first] == 0) continue;
          // Going back, an iterator whose record is removed stands at the next one again.
          if ((ps == BACKWARD || ps == JUMPLOWER || ps == EDITBACK) && cnt[p.first] > 1) continue;
          // When its record is removed by others, an iterator of the standard containers is moved to the next one, and Next passes over that.
          if (stdc && removing && cnt[p.first] == 0) continue;
          if (cnt[p.first] != 1) mc::Fail("the untouched record " + LBrief(p.first) + " was visited " + std::to_string(cnt[p.first]) + " times\n" + story);
        }
        if (db.ordered)
          for (size_t j = 1; j < visited[i].size(); j++) {
            const Pass ps = sc.iters[i];
            if (ps == BACKWARD || ps == EDITBACK || ps == JUMPLOWER) break;
            const bool same = ps == ERASE && visited[i][j] == visited[i][j - 1];   // removed, added again and met again
            const bool ok = same || visited[i][j] > visited[i][j - 1];
            if (!ok) mc::Fail("the iterator goes the wrong way\n" + story);
          }
      }
    if (sc.close) {
      its.clear();
      Status s = db.dbm->Open(db.path, true, File::OPEN_DEFAULT);
      if (s != Status::SUCCESS) mc::Fail("reopening: " + ToString(s));
    }
    std::string err;
    const LMap fin = LContent(db, t, &err);
    if (!err.empty()) mc::Fail("after the threads ended: " + err + "\n" + story + "  end: " + LDump(fin));
    LinChecker c;
    c.h = &hist;
    c.t = &t;
    c.ordered = db.ordered;
    c.skip = db.skip;
    if (!c.Search(0, init, [&](const LState& s) { return s.m == fin; })) mc::Fail("not linearizable:\n" + story + "  end: " + LDump(fin));
    std::string out;
    for (auto& r : hist) out += LBrief(r.r) + " ";
    mc::Outcome(out + path);
    its.clear();
    db.dbm.reset();
    mc::NoSched(false);
  }, share);
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  mc::FsScope(Scratch());
  const bool th = Thorough();
  const int b2 = th ? 3 : 2, b3 = th ? 2 : 1;
  LTable t;
  t.keys = {"a", "b", "c", "d", "e", "f"};
  const std::vector<LOp> three = {{Q_SET, 0, 0}, {Q_SET, 1, 1}, {Q_SET, 3, 0}};
  const std::vector<LOp> five = {{Q_SET, 0, 0}, {Q_SET, 1, 1}, {Q_SET, 2, 0}, {Q_SET, 3, 1}, {Q_SET, 4, 0}};
  typedef std::vector<LOp> T;
  const std::vector<IScen> any = {
    {"set", three, {FORWARD}, {T{{Q_SET, 0, 2}, {Q_SET, 2, 0}}}, b2},
    {"remove", three, {FORWARD}, {T{{Q_REMOVE, 1}, {Q_REMOVE, 0}}}, b2},
    {"readd", three, {FORWARD}, {T{{Q_REMOVE, 1}, {Q_SET, 1, 2}}}, b2},
    {"insert", three, {FORWARD}, {T{{Q_SET, 2, 1}, {Q_SET, 4, 2}}}, b2},
    {"clear", three, {FORWARD}, {T{{Q_CLEAR}, {Q_SET, 2, 0}}}, b2},
    {"rebuild", three, {FORWARD}, {T{{Q_REBUILD}, {Q_SET, 2, 0}}}, b2},
    {"sync", three, {FORWARD}, {T{{Q_SYNC}, {Q_REMOVE, 0}}}, b2},
    {"jump", three, {JUMP}, {T{{Q_REMOVE, 1}, {Q_SET, 2, 0}}}, b2},
    {"edit", three, {EDIT}, {T{{Q_APPEND, 1, 0}, {Q_REMOVE, 0}}}, b2},
    {"edit insert", three, {EDIT}, {T{{Q_SET, 2, 1}, {Q_SET, 0, 2}}}, b2},
    {"erase", three, {ERASE}, {T{{Q_SET, 0, 2}, {Q_SET, 2, 0}}}, b2},
    {"erase remove", three, {ERASE}, {T{{Q_REMOVE, 1}, {Q_REMOVE, 3}}}, b2},
    {"each", three, {EDIT}, {T{{Q_EACHADD, 0, 1}}}, b2},
    {"each set", three, {}, {T{{Q_EACHGET}}, T{{Q_SET, 0, 2}, {Q_SET, 2, 0}}}, b2},
    {"each remove", three, {}, {T{{Q_EACHGET}}, T{{Q_REMOVE, 1}, {Q_SET, 2, 0}}}, b2},
    {"each add", three, {}, {T{{Q_EACHADD, 0, 1}}, T{{Q_APPEND, 1, 0}, {Q_SET, 2, 0}}}, b2},
    {"first set", three, {}, {T{{Q_PEEK}, {Q_PEEK, 0, 1}}, T{{Q_SET, 0, 2}, {Q_SET, 2, 0}}}, b2},
    {"first remove", three, {}, {T{{Q_PEEK}, {Q_PEEK}}, T{{Q_REMOVE, 0}, {Q_REMOVE, 3}}}, b2},
    {"each each", three, {}, {T{{Q_EACHADD, 0, 1}}, T{{Q_EACHADD, 0, 0}}}, b2},
    {"each erase", three, {ERASE}, {T{{Q_EACHADD, 0, 1}}}, b2},
    {"close", three, {FORWARD}, {}, b2, true},
    {"close edit", three, {EDIT}, {}, b2, true},
    {"2 iterators", three, {FORWARD, EDIT}, {}, b2},
    {"2 erasers", three, {ERASE, ERASE}, {}, b2},
    {"3 set remove", three, {FORWARD}, {T{{Q_SET, 2, 2}}, T{{Q_REMOVE, 1}}}, b3},
    {"3 iterators", three, {FORWARD, ERASE}, {T{{Q_SET, 2, 0}}}, b3},
  };
  const std::vector<IScen> ordered = {
    {"back set", five, {BACKWARD}, {T{{Q_SET, 2, 2}, {Q_SET, 5, 0}}}, b2},
    {"back remove", five, {BACKWARD}, {T{{Q_REMOVE, 2}, {Q_REMOVE, 3}}}, b2},
    {"back insert", three, {BACKWARD}, {T{{Q_SET, 2, 1}, {Q_SET, 4, 1}}}, b2},
    {"lower", five, {JUMPLOWER}, {T{{Q_REMOVE, 3}, {Q_REMOVE, 1}}}, b2},
    {"jump 5", five, {JUMP}, {T{{Q_REMOVE, 1}, {Q_REMOVE, 2}}}, b2},
    {"remove 5", five, {FORWARD}, {T{{Q_REMOVE, 1}, {Q_REMOVE, 2}, {Q_REMOVE, 3}}}, b2},
    {"edit back", five, {EDITBACK}, {T{{Q_REMOVE, 3}, {Q_SET, 2, 1}}}, b2},
    {"2 ways", five, {FORWARD, BACKWARD}, {T{{Q_REMOVE, 2}}}, b3},
    {"eraser and back", five, {ERASE, BACKWARD}, {}, b2},
  };
  LinSuite s;
  struct Db { const char* n; DbMaker mk; int main; bool ordered; };
  auto wt = TinyTree();
  wt.max_cached_pages = 1;
  const std::vector<Db> dbs = {
    {"hash", HashMaker(TinyHash(false, 2)), 2, false}, {"tree", TreeMaker(TinyTree()), 2, true}, {"tiny", TinyMaker(2), 2, false}, {"baby", BabyMaker(), 2, true},
    {"cache", CacheMaker(), 1, false}, {"stdhash", StdHashMaker(), 1, false}, {"stdtree", StdTreeMaker(), 1, true},
    {"hash appending", HashMaker(TinyHash(true, 2)), 1, false}, {"tree 3", TreeMaker(TinyTree(30, 3)), 1, true}};
  for (auto& d : dbs) {
    int i = &d - &dbs[0];
    auto add = [&](IScen x) {
      if (d.main < 2 && !th && ++i % 2) return;
      if (d.main < 2 && !th) x.bound = 1;
      const DbMaker mk = d.mk;
      const std::string n = d.n;
      s.AddRun([=](double share) { RunIter(n, t, x, mk, share); });
    };
    for (auto& x : any) {
      add(x);
    }
    if (d.ordered) for (auto& x : ordered) add(x);
  }
  s.Run();
  mc::FinishReport();
}
