// Every single failure of a system call in small sessions: it is reported, nothing hangs or crashes, and older data stay.
#include "crash.h"
#include "crash_map.h"
#include "dbs.h"
#include <sys/wait.h>
#include "tkrzw_file_std.h"
using namespace tkrzw;
typedef std::map<std::string, std::set<std::string>> Poss;  // per key what it may hold; "-" is nothing, "=v" is v

struct Cfg {
  std::string name, file;
  bool mem, skip;
  std::function<DBM*()> make;
  std::function<Status(DBM*, const std::string& path)> open;
  std::function<std::string(DBM*)> validate;
};
struct Mode { const char* name; int err; int count; const char* kinds; bool short_io; };

static std::string ShowPoss(const std::set<std::string>& s) {
  std::string r;
  for (auto& x : s) r += (r.empty() ? "" : " or ") + (x == "-" ? std::string("nothing") : "'" + x.substr(1, 30) + (x.size() > 31 ? "..." : "") + "'");
  return r;
}
struct Sess {
  const Cfg& c;
  const std::vector<COp>& ops;
  std::string dir, path, err, what;
  Poss may;                  // in the open database
  Poss ever;                 // all that may be found after an unsuccessful closing
  Map base;
  std::set<std::string> touched;
  bool failed = false, fired = false, all_ok = true;
  std::string fired_in;
  Sess(const Cfg& cfg, const std::vector<COp>& o, const std::string& d) : c(cfg), ops(o), dir(d), path(d + "/" + cfg.file) {}
  std::string symptom;
  bool down = false, no_rebuild = false;
  // The worst of what is wrong is reported.
  void Bad(const std::string& w) {
    auto has = [&](const char* x) { return w.find(x) != std::string::npos; };
    const std::string k = has("succeeds although") ? "unreported" : has("(untouched)") ? "untouched" : has("fails") ? "fails" : has("Count afterwards") ? "miscount" : has("afterwards") || has("at last") ? "inconsistent" : "session";
    auto rank = [](const std::string& x) { return x == "unreported" ? 5 : x == "untouched" ? 4 : x == "fails" ? 3 : x == "inconsistent" ? 2 : x == "session" ? 1 : 0; };
    // When everything fails, which half of an update came through is not followed.
    if (down && rank(k) < 3) return;
    if (err.empty() || rank(k) > rank(symptom)) { err = w; symptom = k; }
  }
  std::set<std::string>& May(const std::string& k) { auto& s = may[k]; if (s.empty()) s.insert("-"); return s; }
  void Put(const std::string& k, const std::string& x, bool ok) {
    auto& s = May(k);
    if (ok) s.clear();
    s.insert(x);
    ever[k].insert(x);
    touched.insert(k);
  }
  void Update(const COp& o, bool ok) {
    const std::string k = CKEY[o.k];
    auto put = [&](const std::string& key, const std::string& x) { Put(key, x, ok); };
    switch (o.kind) {
      case 'S': put(k, "=" + CVal(o.v)); break;
      case 'R': put(k, "-"); break;
      case 'A': {
        std::set<std::string> n;
        for (auto& x : May(k)) n.insert(x == "-" ? "=" + CVal(o.v) : x + "," + CVal(o.v));
        touched.insert(k);
        for (auto& x : n) ever[k].insert(x);
        if (ok) may[k] = n; else may[k].insert(n.begin(), n.end());
        break;
      }
      case 'M': put(k, "=" + CVal(o.v)); put(CKEY[o.k + 1], "-"); break;
      case 'C': for (auto& x : may) { if (ok) x.second.clear(); x.second.insert("-"); ever[x.first].insert("-"); touched.insert(x.first); } break;
      case 'W': {
        const std::set<std::string> old = May(k), nw = May("new");
        touched.insert(k);
        touched.insert("new");
        for (auto& x : old) if (x != "-") { ever["new"].insert(x); may["new"].insert(x); }
        ever[k].insert("-");
        may[k].insert("-");
        break;
      }
    }
  }
  void CheckGet(DBM* d, const std::string& k, const char* when, bool strong, const Poss& p) {
    std::string v;
    const Status s = d->Get(k, &v);
    auto it = p.find(k);
    const std::string x = s == Status::NOT_FOUND_ERROR ? "-" : "=" + v;
    if (s != Status::SUCCESS && s != Status::NOT_FOUND_ERROR) { if (strong) Bad(std::string(when) + ": Get of " + k + " fails: " + ToString(s)); return; }
    if (it == p.end() ? x != "-" : !it->second.count(x)) Bad(std::string(when) + ": " + k + " holds " + ShowPoss({x}) + " instead of " + (it == p.end() ? "nothing" : ShowPoss(it->second)));
  }
  // A change of the state of the fault: returns whether the operation met it.
  bool Met(const std::string& name) {
    if (fired || !mc::FaultFired()) return false;
    fired = true;
    fired_in = name;
    return true;
  }
  // Runs the session with the armed fault.
  void Run(const Mode& m) {
    std::unique_ptr<DBM> d(c.make());
    auto judge = [&](const std::string& name, const Status& s) {
      const bool met = Met(name);
      const bool ok = s == Status::SUCCESS;
      if (!ok && !fired) Bad(name + " fails without a failure below: " + ToString(s));
      if (!ok && m.short_io) Bad(name + " fails because of a short transfer: " + ToString(s));
      if (met && ok && !m.short_io && m.err != EINTR) must = name;
      if (!ok) all_ok = false;
      return ok;
    };
    Status s = c.open(d.get(), path);
    if (!judge("Open", s)) { if (d->IsOpen()) Bad("open after a failed Open"); return; }
    down = m.count > 1 && m.err == EIO;
    for (auto& o : ops) {
      const std::string n = CName(o);
      // Rebuilding after a rebuilding that failed is a known finding: it crashes.
      if (o.kind == 'B' && no_rebuild) continue;
      if (o.kind == 'G') {
        std::string v;
        const std::string k = CKEY[o.k];
        s = d->Get(k, &v);
        const std::string x = s == Status::NOT_FOUND_ERROR ? "-" : "=" + v;
        judge(n, s == Status::NOT_FOUND_ERROR ? Status() : s);
        if ((s == Status::SUCCESS || s == Status::NOT_FOUND_ERROR) && !May(k).count(x)) Bad(n + " gives " + ShowPoss({x}) + " instead of " + ShowPoss(May(k)));
        continue;
      }
      if (o.kind == 'P' || o.kind == 'I') {
        Map got;
        if (o.kind == 'P') s = ReadAll(d.get(), &got);
        else {
          auto it = d->MakeIterator();
          s = it->First();
          std::string k, v;
          while (s == Status::SUCCESS) { s = it->Get(&k, &v); if (s == Status::SUCCESS) { got[k] = v; s = it->Next(); } }
          if (s == Status::NOT_FOUND_ERROR) s = Status();
        }
        if (judge(n, s)) {
          if (all_ok) for (auto& x : may) if (!x.second.count("-") && !got.count(x.first)) Bad(n + " misses " + x.first);
          for (auto& x : got) if (!May(x.first).count("=" + x.second)) Bad(n + " meets " + x.first + " with " + ShowPoss({"=" + x.second}) + " instead of " + ShowPoss(May(x.first)));
        }
        continue;
      }
      s = CDo(d.get(), o, nullptr);
      const bool ok = judge(n, s);
      Update(o, ok);
      if (o.kind == 'B' && !ok) no_rebuild = true;
    }
    // Reading does not crash and gives what may be.
    const bool strong = all_ok;
    for (auto& x : may) CheckGet(d.get(), x.first, "at the end of the session", strong && (fired || m.short_io), may);
    Met("reading at the end");
    s = d->Close();
    if (judge("Close", s)) closed = true;
    if (d->IsOpen()) Bad("open after Close");
  }
  bool closed = false;
  std::string must;
  void After() {
    std::unique_ptr<DBM> d(c.make());
    Status s = c.open(d.get(), path);
    if (s != Status::SUCCESS) return Bad("opening afterwards: " + ToString(s));
    if (!d->IsHealthy()) Bad("not healthy when opened afterwards");
    bool restored = false;
    if (auto* h = dynamic_cast<HashDBM*>(d.get())) restored = h->IsAutoRestored();
    if (auto* h = dynamic_cast<TreeDBM*>(d.get())) restored = h->IsAutoRestored();
    if (auto* h = dynamic_cast<SkipDBM*>(d.get())) restored = h->IsAutoRestored();
    if (restored && all_ok) Bad("restored although everything succeeded");
    const bool exact = closed && !restored;
    Map got;
    s = ReadAll(d.get(), &got);
    if (s != Status::SUCCESS) Bad("ProcessEach afterwards: " + ToString(s));
    if (err.empty() && d->CountSimple() != (int64_t)got.size()) Bad("Count afterwards is " + std::to_string(d->CountSimple()) + " for " + std::to_string(got.size()) + " records");
    std::set<std::string> keys;
    for (auto& x : may) keys.insert(x.first);
    for (auto& x : got) keys.insert(x.first);
    for (auto& k : keys) {
      auto it = got.find(k);
      const std::string x = it == got.end() ? "-" : "=" + it->second;
      std::set<std::string> ok;
      if (!touched.count(k)) ok = {base.count(k) ? "=" + base.at(k) : "-"};
      else if (exact) ok = May(k);
      else { ok = ever[k]; ok.insert(base.count(k) ? "=" + base.at(k) : "-"); }
      if (!ok.count(x)) Bad("afterwards " + k + " holds " + ShowPoss({x}) + " instead of " + ShowPoss(ok) + (touched.count(k) ? "" : " (untouched)"));
      CheckGet(d.get(), k, "afterwards", true, Poss{{k, {x}}});
    }
    if (c.validate && err.empty()) { const std::string e = c.validate(d.get()); if (!e.empty()) Bad("afterwards: " + e); }
    for (auto k : {"a", "late", "f"}) { s = d->Set(k, "later"); if (s != Status::SUCCESS) Bad(std::string("Set afterwards: ") + ToString(s)); got[k] = "later"; }
    s = d->Remove("a");
    got.erase("a");
    if (s != Status::SUCCESS) Bad("Remove afterwards: " + ToString(s));
    s = d->Close();
    if (s != Status::SUCCESS) Bad("Close afterwards: " + ToString(s));
    if (!err.empty()) return;
    s = c.open(d.get(), path);
    if (s != Status::SUCCESS) return Bad("opening at last: " + ToString(s));
    Map last;
    s = ReadAll(d.get(), &last);
    if (last != got) Bad("the records at last are " + ShowMap(last) + " instead of " + ShowMap(got));
    s = d->Close();
    if (s != Status::SUCCESS) Bad("Close at last: " + ToString(s));
  }
};

static double Wall() { struct timespec ts; syscall(228, 1, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const auto& args = mc::args();
  const bool th = Thorough();
  const double t0 = Wall();
  static const char* ALL = "open,pread,pwrite,read,write,ftruncate,truncate,fsync,msync,sync_file_range,rename,mmap,mremap,sendfile";
  static const Mode modes[] = {{"EIO", EIO, 1, ALL, false}, {"full", ENOSPC, 1 << 30, "pwrite,write,ftruncate,truncate,sendfile", false}, {"short", 0, 1, "pread,pwrite,read,write", true}, {"EINTR", EINTR, 1, "pread,pwrite,read,write", false}, {"down", EIO, 1 << 30, ALL, false}};
  auto anyfile = [](int cls) -> std::unique_ptr<File> {
    if (cls == 4) return std::make_unique<StdFile>();
    auto f = AnyFile(cls);
    f->SetAllocationStrategy(512, 1.1);
    return f;
  };
  std::vector<Cfg> cfgs;
  auto vhash = [](DBM* x) -> std::string { auto* d = dynamic_cast<HashDBM*>(x); Status s = d->ValidateHashBuckets(); if (s == Status::SUCCESS) s = d->ValidateRecords(-1, -1); return s == Status::SUCCESS ? "" : "validation: " + ToString(s); };
  auto vtree = [](DBM* x) -> std::string { auto* d = dynamic_cast<TreeDBM*>(x); Status s = d->ValidateHashBuckets(); if (s == Status::SUCCESS) s = d->ValidateRecords(-1, -1); return s == Status::SUCCESS ? "" : "validation: " + ToString(s); };
  auto vskip = [](DBM* x) -> std::string { auto* d = dynamic_cast<SkipDBM*>(x); Status s = d->ValidateRecords(); return s == Status::SUCCESS ? "" : "validation: " + ToString(s); };
  for (bool app : {false, true}) for (int cls : {0, 1, 3}) {
    cfgs.push_back({std::string(app ? "append" : "inplace") + std::to_string(cls), "c.tkh", false, false, [=] { return (DBM*)new HashDBM(anyfile(cls)); },
                    [=](DBM* d, const std::string& p) { auto t = TinyHash(app, 2); t.record_crc_mode = HashDBM::RECORD_CRC_8; return dynamic_cast<HashDBM*>(d)->OpenAdvanced(p, true, File::OPEN_DEFAULT, t); }, vhash});
  }
  if (getenv("VP_TREE")) for (int cls : {0, 1, 3}) {
    cfgs.push_back({"tree" + std::to_string(cls), "c.tkt", false, false, [=] { return (DBM*)new TreeDBM(anyfile(cls)); },
                    [=](DBM* d, const std::string& p) { auto t = TinyTree(1, 2); return dynamic_cast<TreeDBM*>(d)->OpenAdvanced(p, true, File::OPEN_DEFAULT, t); }, vtree});
    cfgs.push_back({"skip" + std::to_string(cls), "c.tks", false, true, [=] { return (DBM*)new SkipDBM(anyfile(cls)); },
                    [=](DBM* d, const std::string& p) { return dynamic_cast<SkipDBM*>(d)->OpenAdvanced(p, true, File::OPEN_DEFAULT, TinySkip()); }, vskip});
  }
  auto plain = [](DBM* d, const std::string& p) { return d->Open(p, true, 0); };
  cfgs.push_back({"tiny", "c.flat", true, false, [=] { return (DBM*)new TinyDBM(anyfile(1), 3); }, plain, nullptr});
  cfgs.push_back({"baby", "c.flat", true, false, [=] { return (DBM*)new BabyDBM(anyfile(0)); }, plain, nullptr});
  cfgs.push_back({"cache", "c.flat", true, false, [=] { return (DBM*)new CacheDBM(anyfile(3), 1000); }, plain, nullptr});
  cfgs.push_back({"stdhash", "c.flat", true, false, [=] { return (DBM*)new StdHashDBM(anyfile(0), 3); }, plain, nullptr});
  cfgs.push_back({"stdtree", "c.flat", true, false, [=] { return (DBM*)new StdTreeDBM(anyfile(1)); }, plain, nullptr});
  long index = 0, runs = 0, cases = 0, shots = 0;
  bool expired = false;
  auto name = [](const std::vector<COp>& ops) { std::string s; for (auto& o : ops) s += (s.empty() ? "" : ".") + CName(o); return s.empty() ? std::string("none") : s; };
  auto run = [&](const Cfg& c, const std::vector<COp>& base, const char* bname, const std::vector<COp>& ops) {
    for (auto& m : modes) {
      const std::string id = c.name + "/" + m.name + "/" + bname + ":" + name(ops);
      if (!args.only.empty() ? args.only.substr(0, args.only.find('#')) != id : index++ % args.num_workers != args.worker) continue;
      if (expired || (args.only.empty() && Wall() - t0 > args.time)) { if (!expired) mc::Note("time ran out in " + id); expired = true; mc::Stat("incomplete", 1); continue; }
      // A run for triage survives the crashes.
      if (getenv("VP_ALL")) { const pid_t pid = fork(); if (pid > 0) { int st; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) printf("\nALL %s CRASH %d\n", id.c_str(), st); fflush(stdout); cases++; continue; } }
      struct AtEnd { ~AtEnd() { if (getenv("VP_ALL")) { fflush(stdout); _exit(0); } } } at_end;
      const std::string dir = Scratch() + "/f";
      ::mkdir(dir.c_str(), 0755);
      CleanDir(dir);
      mc::SetContext(id);
      alarm(60);
      Map start;
      if (bname[0] != 'n') {
        std::unique_ptr<DBM> d(c.make());
        Status s = c.open(d.get(), dir + "/" + c.file);
        for (auto& o : base) { s |= CDo(d.get(), o, nullptr); start = CStates(start, o).back(); }
        s |= d->Close();
        if (s != Status::SUCCESS) { mc::Violation(id + "#setup", ToString(s)); return; }
      }
      const Files files = ReadFiles(dir);
      long first = -1;
      if (!args.only.empty() && args.only.find('#') != std::string::npos) first = atol(args.only.c_str() + args.only.find('#') + 1);
      for (long n = std::max(first, 0l);; n++) {
        WriteFiles(dir, files);
        Sess s(c, ops, dir);
        s.base = start;
        for (auto& r : start) { s.may[r.first] = {"=" + r.second}; s.ever[r.first] = {"=" + r.second}; }
        std::string sub = id + "#" + std::to_string(n);
        mc::SetContext(sub);
        alarm(30);
        mc::FaultPlan p;
        p.nth = n;
        p.err = m.err;
        p.count = m.count;
        p.kinds = m.kinds;
        p.short_io = m.short_io;
        bool fired;
        {
          mc::FsScope(dir);
          mc::FaultArm(p);
          s.Run(m);
          mc::FaultDisarm(&fired, &s.what);
          mc::FsScope("");
        }
        runs++;
        const std::string w = s.what.substr(0, s.what.find(' ')) + (s.what.find('/') != std::string::npos ? " of " + s.what.substr(s.what.rfind('/') + 1) : "");
        // What opening reads for information only (the free blocks, whether the tail is blank) may be done without.
        const bool optional = (s.must == "Open" || s.must[0] == 'B') && w.compare(0, 5, "pread") == 0;
        if (!s.must.empty() && !optional) s.Bad(s.must + " succeeds although " + w + " failed in it");
        if (s.err.empty()) s.After();
        if (!s.err.empty()) {
          const std::string text = s.err + " [" + w + " failed in " + s.fired_in + " with " + m.name + "]";
          sub += " " + s.symptom + " " + s.fired_in.substr(0, 1) + "!" + w;
          if (getenv("VP_ALL")) printf("ALL %s %s\n", sub.c_str(), text.c_str()); else mc::Violation(sub, text);
        }
        if (!fired || first >= 0) break;
        shots++;
      }
      alarm(0);
      cases++;
    }
  };
  const std::vector<COp> base = {{'S', 0, 2}, {'S', 1, 1}, {'S', 2, 2}, {'S', 3, 3}};
  const std::vector<COp> alpha = {{'S', 4, 2}, {'S', 5, 4}, {'S', 0, 3}, {'S', 0, 1}, {'R', 0}, {'R', 1}, {'A', 1, 2}, {'M', 0, 3}, {'W', 1}, {'Y'}, {'H'}, {'B'}, {'C'}, {'G', 1}, {'P'}, {'I'}};
  for (auto& c : cfgs) {
    run(c, {}, "new", {{'S', 0, 2}, {'S', 1, 1}});
    run(c, base, "", {});
    for (auto& a : alpha) run(c, base, "", {a});
    run(c, base, "", {{'S', 4, 2}, {'R', 0}, {'Y'}, {'S', 1, 3}, {'A', 3, 2}, {'B'}, {'S', 4, 1}, {'R', 1}, {'H'}, {'S', 5, 4}, {'P'}});
  }
  const std::vector<COp> few = {{'S', 4, 2}, {'S', 0, 3}, {'R', 0}, {'A', 1, 2}, {'Y'}, {'H'}, {'B'}, {'C'}};
  for (auto& c : cfgs) for (auto& a : few) for (auto& b : few) run(c, base, "", {a, b});
  for (auto& c : cfgs) for (auto& a : few) for (auto& b : few) for (auto& d : few) run(c, base, "", {a, b, d});
  if (th) for (auto& c : cfgs) for (auto& a : alpha) for (auto& b : alpha) for (auto& d : few) run(c, base, "", {a, b, d});
  mc::Stat("states", runs);
  mc::Stat("transitions", shots);
  mc::Stat("traces", cases);
  mc::FinishReport();
}
