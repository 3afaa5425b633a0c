// Lifecycle: every operation, and every pair of operations, in every state of a database.
#include "conc.h"
#include "dbs.h"
#include "seqstub.h"
#include "tkrzw_dbm_poly.h"
#include "tkrzw_dbm_shard.h"
#include "tkrzw_file_std.h"
#include "tkrzw_file_util.h"
using namespace tkrzw;
static double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
typedef std::map<std::string, std::string> Params;

struct Cfg {
  std::string name, file;
  bool ordered, onmem;
  std::function<DBM*()> make;
  std::function<Status(DBM*, const std::string&, bool, int)> open;
  std::function<Status(DBM*, const std::string&)> wrong = nullptr;  // an opening with parameters that are refused
};
static std::string S(const Status& s) {
  const std::string t = ToString(s);
  return t.substr(0, t.find(':'));
}
struct Env {
  DBM* d;
  const Cfg* c;
  std::string dir, path;  // the folder of the database; its path
  std::string out;        // a folder for what operations write elsewhere
  std::unique_ptr<DBM::Iterator>* it;
  int calls = 0;
};
struct Proc : DBM::RecordProcessor {
  int* calls;
  std::string* log;
  std::string_view ret;
  Proc(int* c, std::string* l, std::string_view r) : calls(c), log(l), ret(r) {}
  std::string_view ProcessFull(std::string_view k, std::string_view v) override { ++*calls; *log += "[" + std::string(k) + "=" + std::string(v) + "]"; return ret; }
  std::string_view ProcessEmpty(std::string_view k) override { ++*calls; *log += "[" + std::string(k) + "-]"; return ret; }
};
// Kinds: r reads, u updates (refused by read-only databases), q asks for what need not be the same on a writable one, m manages the file.
struct Op { const char* name; char kind; bool order; std::function<std::string(Env&)> run; };
static const std::string_view NOOP = DBM::RecordProcessor::NOOP, REMOVE = DBM::RecordProcessor::REMOVE;

static std::vector<Op> AllOps() {
  std::vector<Op> v;
  auto add = [&](const char* n, char k, std::function<std::string(Env&)> f, bool order = false) { v.push_back({n, k, order, f}); };
  for (const char* key : {"a", "zz"}) {
    const std::string k = key;
    const bool hit = k == "a";
    add(hit ? "Get" : "GetMiss", 'r', [=](Env& e) { std::string x = "old"; const Status s = e.d->Get(k, &x); return S(s) + " " + x; });
    add(hit ? "GetSimple" : "GetSimpleMiss", 'r', [=](Env& e) { return "v:" + e.d->GetSimple(k, "DEF"); });
    add(hit ? "ProcessRead" : "ProcessReadMiss", 'r', [=](Env& e) { std::string l; Proc p(&e.calls, &l, NOOP); const Status s = e.d->Process(k, &p, false); return S(s) + l; });
    add(hit ? "ProcessWrite" : "ProcessWriteMiss", 'u', [=](Env& e) { std::string l; Proc p(&e.calls, &l, "new"); const Status s = e.d->Process(k, &p, true); return S(s) + l; });
    add(hit ? "ProcessNoop" : "ProcessNoopMiss", 'u', [=](Env& e) { std::string l; Proc p(&e.calls, &l, NOOP); const Status s = e.d->Process(k, &p, true); return S(s) + l; });
    add(hit ? "Set" : "SetNew", 'u', [=](Env& e) { return S(e.d->Set(k, "new")); });
    add(hit ? "SetKeep" : "SetKeepNew", 'u', [=](Env& e) { std::string o = "-"; const Status s = e.d->Set(k, "new", false, &o); return S(s) + o; });
    add(hit ? "Remove" : "RemoveMiss", 'u', [=](Env& e) { std::string o = "-"; const Status s = e.d->Remove(k, &o); return S(s) + o; });
    add(hit ? "Append" : "AppendNew", 'u', [=](Env& e) { return S(e.d->Append(k, "x", ",")); });
    add(hit ? "CompareExchange" : "CompareExchangeNew", 'u', [=](Env& e) {
      std::string a = "-"; bool f = false;
      const Status s = hit ? e.d->CompareExchange(k, "1", "new", &a, &f) : e.d->CompareExchange(k, std::string_view(), "new", &a, &f);
      return S(s) + a; });
    add(hit ? "Rekey" : "RekeyMiss", 'u', [=](Env& e) { return S(e.d->Rekey(k, "n")); });
    add(hit ? "ItJump" : "ItJumpMiss", 'r', [=](Env& e) { return "i:" + S((*e.it)->Jump(k)); });
  }
  add("GetMulti", 'r', [](Env& e) { Params m; const Status s = e.d->GetMulti({"a", "zz", "b"}, &m); std::string r = S(s); for (auto& x : m) r += " " + x.first + "=" + x.second; return r; });
  add("ProcessMultiRead", 'r', [](Env& e) { std::string l; Proc p(&e.calls, &l, NOOP); const Status s = e.d->ProcessMulti({{"a", &p}, {"zz", &p}}, false); return S(s) + l; });
  add("ProcessMultiWrite", 'u', [](Env& e) { std::string l; Proc p(&e.calls, &l, "new"); const Status s = e.d->ProcessMulti({{"a", &p}, {"zz", &p}}, true); return S(s) + l; });
  add("SetMulti", 'u', [](Env& e) { return S(e.d->SetMulti({{"a", "new"}, {"q", "1"}})); });
  add("RemoveMulti", 'u', [](Env& e) { return S(e.d->RemoveMulti({"a", "zz"})); });
  add("AppendMulti", 'u', [](Env& e) { return S(e.d->AppendMulti({{"a", "x"}, {"q", "y"}}, ",")); });
  add("CompareExchangeMulti", 'u', [](Env& e) { return S(e.d->CompareExchangeMulti({{"a", "1"}}, {{"a", std::string_view()}})); });
  add("Increment", 'u', [](Env& e) { int64_t c = -9; const Status s = e.d->Increment("n", 2, &c, 5); return S(s) + std::to_string(c); });
  add("IncrementSimple", 'U', [](Env& e) { return std::to_string(e.d->IncrementSimple("n", 2, 5)); });
  add("ProcessFirstRead", 'r', [](Env& e) { std::string l; Proc p(&e.calls, &l, NOOP); const Status s = e.d->ProcessFirst(&p, false); return S(s) + l; }, true);
  add("ProcessFirstWrite", 'u', [](Env& e) { std::string l; Proc p(&e.calls, &l, REMOVE); const Status s = e.d->ProcessFirst(&p, true); return S(s) + l; });
  add("PopFirst", 'u', [](Env& e) { std::string a, b; const Status s = e.d->PopFirst(&a, &b); return S(s) + a + b; });
  add("PushLast", 'u', [](Env& e) { return S(e.d->PushLast("v", 100)); });
  add("ProcessEachRead", 'r', [](Env& e) { std::string l; Proc p(&e.calls, &l, NOOP); const Status s = e.d->ProcessEach(&p, false); return S(s) + l; });
  add("ProcessEachWrite", 'u', [](Env& e) { std::string l; Proc p(&e.calls, &l, "new"); const Status s = e.d->ProcessEach(&p, true); return S(s) + l; });
  add("Count", 'r', [](Env& e) { int64_t n = -7; const Status s = e.d->Count(&n); return S(s) + std::to_string(n) + "," + std::to_string(e.d->CountSimple()); });
  add("GetFileSize", 'q', [](Env& e) { int64_t n = -7; return S(e.d->GetFileSize(&n)); });
  add("GetFilePath", 'q', [](Env& e) { std::string p; return S(e.d->GetFilePath(&p)); });
  add("GetTimestamp", 'q', [](Env& e) { double t; return S(e.d->GetTimestamp(&t)); });
  add("ShouldBeRebuilt", 'q', [](Env& e) { bool t; return S(e.d->ShouldBeRebuilt(&t)); });
  add("CopyFileData", 'q', [](Env& e) { return S(e.d->CopyFileData(e.out + "/copy")); });
  add("Export", 'r', [](Env& e) { BabyDBM b; const Status s = e.d->Export(&b); std::string r = S(s); auto it = b.MakeIterator(); it->First(); std::string k, x; while (it->Get(&k, &x) == Status::SUCCESS) { r += " " + k + "=" + x; it->Next(); } return r; });
  add("Clear", 'u', [](Env& e) { return S(e.d->Clear()); });
  add("Rebuild", 'm', [](Env& e) { return S(e.d->Rebuild()); });
  add("Synchronize", 'm', [](Env& e) { return S(e.d->Synchronize(false)); });
  add("SynchronizeHard", 'm', [](Env& e) { return S(e.d->Synchronize(true)); });
  add("Inspect", 'o', [](Env& e) { e.d->Inspect(); return std::string("-"); });
  add("ItFirst", 'r', [](Env& e) { return "i:" + S((*e.it)->First()); });
  add("ItLast", 'r', [](Env& e) { return "i:" + S((*e.it)->Last()); });
  add("ItJumpLower", 'r', [](Env& e) { return "i:" + S((*e.it)->JumpLower("b", false)); });
  add("ItJumpUpper", 'r', [](Env& e) { return "i:" + S((*e.it)->JumpUpper("b", true)); });
  add("ItNext", 'r', [](Env& e) { return "i:" + S((*e.it)->Next()); });
  add("ItPrevious", 'r', [](Env& e) { return "i:" + S((*e.it)->Previous()); });
  add("ItGet", 'r', [](Env& e) { std::string k, x; const Status s = (*e.it)->Get(&k, &x); return "i:" + S(s) + k + "=" + x; });
  add("ItStep", 'r', [](Env& e) { std::string k, x; const Status s = (*e.it)->Step(&k, &x); return "i:" + S(s) + k + "=" + x; });
  add("ItSet", 'u', [](Env& e) { return "i:" + S((*e.it)->Set("new")); });
  add("ItRemove", 'u', [](Env& e) { return "i:" + S((*e.it)->Remove()); });
  add("ItProcessWrite", 'u', [](Env& e) { std::string l; Proc p(&e.calls, &l, "new"); const Status s = (*e.it)->Process(&p, true); return "i:" + S(s) + l; });
  add("ItProcessRead", 'r', [](Env& e) { std::string l; Proc p(&e.calls, &l, NOOP); const Status s = (*e.it)->Process(&p, false); return "i:" + S(s) + l; });
  add("ItNew", 'o', [](Env& e) { *e.it = e.d->MakeIterator(); return std::string("-"); });
  return v;
}
template <typename D> static D* As(Env& e) { return dynamic_cast<D*>(e.d); }
// Operations of a class of its own.
static std::vector<Op> OwnOps(const std::string& cls) {
  std::vector<Op> v;
  auto add = [&](const char* n, char k, std::function<std::string(Env&)> f) { v.push_back({n, k, false, f}); };
  if (cls == "hash") {
    add("RebuildAdvanced", 'm', [](Env& e) { HashDBM::TuningParameters t; t.num_buckets = 5; return S(As<HashDBM>(e)->RebuildAdvanced(t, false, true)); });
    add("ImportForward", 'u', [](Env& e) { return S(As<HashDBM>(e)->ImportFromFileForward(e.out + "/none", false, 0, -1)); });
    add("ImportBackward", 'u', [](Env& e) { return S(As<HashDBM>(e)->ImportFromFileBackward(e.out + "/none", false, 0, -1)); });
    add("SetDatabaseType", 'u', [](Env& e) { return S(As<HashDBM>(e)->SetDatabaseType(7)); });
    add("SetOpaqueMetadata", 'u', [](Env& e) { return S(As<HashDBM>(e)->SetOpaqueMetadata("opaque")); });
    add("SetAppending", 'u', [](Env& e) { return S(As<HashDBM>(e)->SetUpdateModeAppending()); });
    add("ValidateBuckets", 'q', [](Env& e) { return S(As<HashDBM>(e)->ValidateHashBuckets()); });
    add("ValidateRecords", 'q', [](Env& e) { return S(As<HashDBM>(e)->ValidateRecords(-1, -1)); });
    add("Gets", 'o', [](Env& e) { auto* d = As<HashDBM>(e); d->GetDatabaseType(); d->GetOpaqueMetadata(); d->GetEffectiveDataSize(); d->CountBuckets(); d->CountUsedBuckets(); d->GetUpdateMode(); d->IsAutoRestored(); return std::string("-"); });
  } else if (cls == "tree") {
    add("RebuildAdvanced", 'm', [](Env& e) { TreeDBM::TuningParameters t; t.max_page_size = 100; return S(As<TreeDBM>(e)->RebuildAdvanced(t, false, true)); });
    add("SetDatabaseType", 'u', [](Env& e) { return S(As<TreeDBM>(e)->SetDatabaseType(7)); });
    add("SetOpaqueMetadata", 'u', [](Env& e) { return S(As<TreeDBM>(e)->SetOpaqueMetadata("opaque")); });
    add("ValidateBuckets", 'q', [](Env& e) { return S(As<TreeDBM>(e)->ValidateHashBuckets()); });
    add("ValidateRecords", 'q', [](Env& e) { return S(As<TreeDBM>(e)->ValidateRecords(-1, -1)); });
    add("Gets", 'o', [](Env& e) { auto* d = As<TreeDBM>(e); d->GetDatabaseType(); d->GetOpaqueMetadata(); d->GetEffectiveDataSize(); d->IsAutoRestored(); d->GetKeyComparator(); return std::string("-"); });
  } else if (cls == "skip") {
    add("SynchronizeAdvanced", 'm', [](Env& e) { return S(As<SkipDBM>(e)->SynchronizeAdvanced(false, nullptr, SkipDBM::ReduceToFirst)); });
    add("RebuildAdvanced", 'm', [](Env& e) { SkipDBM::TuningParameters t; t.step_unit = 3; return S(As<SkipDBM>(e)->RebuildAdvanced(t, true)); });
    add("GetByIndex", 'q', [](Env& e) { std::string k, x; const Status s = As<SkipDBM>(e)->GetByIndex(1, &k, &x); return S(s) + k + x; });
    add("Merge", 'u', [](Env& e) { return S(As<SkipDBM>(e)->MergeSkipDatabase(e.out + "/none")); });
    add("SetDatabaseType", 'u', [](Env& e) { return S(As<SkipDBM>(e)->SetDatabaseType(7)); });
    add("SetOpaqueMetadata", 'u', [](Env& e) { return S(As<SkipDBM>(e)->SetOpaqueMetadata("opaque")); });
    add("Revert", 'u', [](Env& e) { return S(As<SkipDBM>(e)->Revert()); });
    add("ValidateRecords", 'q', [](Env& e) { return S(As<SkipDBM>(e)->ValidateRecords()); });
    add("Gets", 'o', [](Env& e) { auto* d = As<SkipDBM>(e); d->GetDatabaseType(); d->GetOpaqueMetadata(); d->GetEffectiveDataSize(); d->IsUpdated(); d->IsAutoRestored(); return std::string("-"); });
  } else if (cls == "poly" || cls == "shard") {
    const bool poly = cls == "poly";
    add("RebuildAdvanced", 'm', [=](Env& e) { return S(poly ? As<PolyDBM>(e)->RebuildAdvanced({}) : As<ShardDBM>(e)->RebuildAdvanced({})); });
    add("SynchronizeAdvanced", 'm', [=](Env& e) { return S(poly ? As<PolyDBM>(e)->SynchronizeAdvanced(false, nullptr, {}) : As<ShardDBM>(e)->SynchronizeAdvanced(false, nullptr, {})); });
  }
  return v;
}

typedef std::map<std::string, std::string> FilesOf;
static FilesOf ReadDir(const std::string& dir) {
  FilesOf r;
  std::vector<std::string> names;
  ReadDirectory(dir, &names);
  for (auto& n : names) { std::string b; ReadFile(dir + "/" + n, &b); r[n] = b; }
  return r;
}
static std::string DiffFiles(const FilesOf& a, const FilesOf& b) {
  for (auto& x : a) { auto f = b.find(x.first); if (f == b.end()) return "the file " + x.first + " is gone"; if (f->second != x.second) { size_t i = 0; while (i < x.second.size() && i < f->second.size() && x.second[i] == f->second[i]) i++; return "the file " + x.first + " changed at " + std::to_string(i) + " (" + std::to_string(x.second.size()) + " to " + std::to_string(f->second.size()) + " bytes)"; } }
  for (auto& x : b) if (!a.count(x.first)) return "the file " + x.first + " appeared";
  return "";
}
static const Params DATA = {{"a", "1"}, {"b", "22"}, {"c", std::string(40, 'c')}, {"d", ""}, {"e", "5"}};

struct Case {
  const Cfg& c;
  std::string dir, path, out;
  std::string err;
  std::unique_ptr<DBM::Iterator> it;
  std::unique_ptr<DBM> d;
  Case(const Cfg& cfg, const std::string& base) : c(cfg) {
    dir = base + "/db";
    out = base + "/out";
    for (auto& x : {dir, out}) { CleanDir(x); MakeDirectory(x); }
    path = dir + "/" + c.file;
  }
  void Bad(const std::string& w) { if (err.empty()) err = w; }
  bool Create(const std::string& where) {
    std::unique_ptr<DBM> x(c.make());
    Status s = c.open(x.get(), where, true, File::OPEN_TRUNCATE);
    for (auto& r : DATA) s |= x->Set(r.first, r.second);
    s |= x->Close();
    if (s != Status::SUCCESS) Bad("creation: " + ToString(s));
    return err.empty();
  }
  Env E() { return Env{d.get(), &c, dir, path, out, &it}; }
  std::string Content(DBM* x) {
    Params m;
    std::string l;
    int n = 0;
    struct P : DBM::RecordProcessor { Params* m; int* n; std::string_view ProcessFull(std::string_view k, std::string_view v) override { (*m)[std::string(k)] = std::string(v); ++*n; return NOOP; } } p;
    p.m = &m; p.n = &n;
    const Status s = x->ProcessEach(&p, false);
    std::string r = S(s) + " " + std::to_string(n - (s == Status::SUCCESS ? 1 : 0)) + " " + std::to_string(x->CountSimple());
    for (auto& e : m) r += "|" + e.first + "=" + e.second;
    return r;
  }
  void CheckFile(const char* when) {
    std::unique_ptr<DBM> x(c.make());
    const Status s = c.open(x.get(), path, false, 0);
    if (s != Status::SUCCESS) return Bad(std::string(when) + ": opening: " + ToString(s));
    Params m = DATA;
    if ((size_t)x->CountSimple() != DATA.size()) Bad(std::string(when) + ": the count is " + std::to_string(x->CountSimple()));
    for (auto& r : DATA) { std::string v; if (x->Get(r.first, &v) != Status::SUCCESS || v != r.second) Bad(std::string(when) + ": the record " + r.first + " changed"); }
    x->Close();
  }
  // A database that is not opened: nothing works, nothing is written.
  void Closed(const std::vector<const Op*>& ops, const FilesOf& files, const std::string& state) {
    for (auto* o : ops) {
      Env e = E();
      if (strncmp(o->name, "It", 2) == 0 && o->kind != 'o' && !it) continue;
      const std::string r = o->run(e);
      const bool i = r.compare(0, 2, "i:") == 0;
      if (!c.onmem) {
        if (e.calls) Bad(state + ": " + o->name + " calls the processor");
        if (o->kind == 'o') {
        } else if (r.compare(0, 2, "v:") == 0) { if (r != "v:DEF") Bad(state + ": " + o->name + " gives " + r);
        } else if (o->kind == 'U') { if (r != std::to_string(INT64MIN)) Bad(state + ": " + o->name + " gives " + r);
        } else if (i && (r.find("i:NOT_FOUND") == 0 || r.find("i:PRECONDITION_ERROR") == 0 || r.find("i:NOT_IMPLEMENTED") == 0)) {
        } else if (i || r.find("PRECONDITION_ERROR") != 0) Bad(state + ": " + o->name + " gives " + r);
        if (strcmp(o->name, "Count") == 0 && r != "PRECONDITION_ERROR-7,-1") Bad(state + ": Count gives " + r);
        std::string p;
      } else if (o->kind == 'q' && strcmp(o->name, "ShouldBeRebuilt") && strcmp(o->name, "GetByIndex")) {
        if (r.find("PRECONDITION_ERROR") != 0) Bad(state + ": " + o->name + " gives " + r);
      }
      if (d->IsOpen() || d->IsWritable()) Bad(state + ": the database is told to be open after " + o->name);
    }
    if (d->Close() != Status::PRECONDITION_ERROR) Bad(state + ": Close gives no precondition error");
    const std::string df = DiffFiles(files, ReadDir(dir));
    if (!df.empty()) Bad(state + ": " + df);
    if (!ReadDir(out).empty()) Bad(state + ": something was copied");
  }
  void Unopened(const std::vector<const Op*>& ops) {
    d.reset(c.make());
    it = d->MakeIterator();
    Closed(ops, {}, "unopened");
    it.reset();
    // It can be opened and works.
    if (err.empty() && !c.onmem) Fresh();
  }
  void Fresh() {
    Status s = c.open(d.get(), path, true, File::OPEN_TRUNCATE);
    if (s != Status::SUCCESS || !d->IsOpen() || !d->IsWritable()) return Bad("opening afterwards: " + ToString(s));
    if (d->CountSimple() != 0) Bad("opened with OPEN_TRUNCATE afterwards, the count is " + std::to_string(d->CountSimple()));
    for (auto& r : DATA) s |= d->Set(r.first, r.second);
    s |= d->Close();
    if (s != Status::SUCCESS) Bad("using it afterwards: " + ToString(s));
    CheckFile("used afterwards");
  }
  void AfterClose(const std::vector<const Op*>& ops, bool old_iter) {
    if (!Create(path)) return;
    d.reset(c.make());
    Status s = c.open(d.get(), path, true, 0);
    if (s != Status::SUCCESS) return Bad("opening: " + ToString(s));
    if (old_iter) { it = d->MakeIterator(); it->First(); it->Get(); }
    s = d->Close();
    if (s != Status::SUCCESS) return Bad("closing: " + ToString(s));
    if (!old_iter) it = d->MakeIterator();
    Closed(ops, ReadDir(dir), "closed");
    it.reset();
    if (!err.empty()) return;
    CheckFile("closed");
    if (!c.onmem) Fresh();
  }
  // An opening that fails leaves a database that is not opened.
  void AfterFailure(const std::vector<const Op*>& ops, int kind) {
    d.reset(c.make());
    int options = 0;
    bool writable = true;
    std::string p = path;
    if (kind == 0) writable = false;  // the file is missing
    if (kind == 1) options = File::OPEN_NO_CREATE;
    if (kind == 2) { if (!Create(path)) return; std::vector<std::string> ns; ReadDirectory(dir, &ns); for (auto& n : ns) WriteFile(dir + "/" + n, std::string(5000, 'x')); }
    if (kind == 3) p = dir + "/nodir/" + c.file;
    const FilesOf files = ReadDir(dir);
    const Status s = kind == 4 ? c.wrong(d.get(), p) : c.open(d.get(), p, writable, options);
    if (s == Status::SUCCESS) return Bad("an opening that must fail succeeds");
    if (d->IsOpen()) return Bad("open after a failed opening");
    it = d->MakeIterator();
    if (kind == 4) Closed(ops, ReadDir(dir), "opening failed with " + S(s)); else
    Closed(ops, files, "opening failed with " + S(s));
    it.reset();
    if (err.empty() && !c.onmem) Fresh();
  }
  void ReadOnly(const std::vector<const Op*>& ops) {
    if (!Create(path)) return;
    const std::string twin = out + "/../twin";
    CleanDir(twin);
    MakeDirectory(twin);
    const FilesOf files = ReadDir(dir);
    for (auto& f : files) WriteFile(twin + "/" + f.first, f.second);
    d.reset(c.make());
    Status s = c.open(d.get(), path, false, 0);
    if (s != Status::SUCCESS || !d->IsOpen() || d->IsWritable() || !d->IsHealthy()) return Bad("opening as read-only: " + ToString(s));
    std::unique_ptr<DBM> w(c.make());
    s = c.open(w.get(), twin + "/" + c.file, true, 0);
    if (s != Status::SUCCESS) return Bad("opening the twin: " + ToString(s));
    std::unique_ptr<DBM::Iterator> wit = w->MakeIterator();
    it = d->MakeIterator();
    it->First();
    wit->First();
    const std::string before = Content(d.get());
    if (before != Content(w.get())) Bad("read-only: the content is " + before + ", writable: " + Content(w.get()));
    for (auto* o : ops) {
      Env e = E();
      if (c.onmem && (o->kind == 'u' || o->kind == 'U')) { o->run(e); continue; }
      const std::string r = o->run(e);
      if (o->kind == 'r') {
        Env we{w.get(), &c, dir, path, out, &wit};
        const std::string x = o->run(we);
        if (r != x && !c.onmem) Bad(std::string("read-only: ") + o->name + " gives " + r + ", on a writable database " + x);
      } else if (o->kind == 'o') { if (strcmp(o->name, "ItNew") == 0) wit = w->MakeIterator();
      } else if (o->kind == 'U') { if (r != std::to_string(INT64MIN)) Bad(std::string("read-only: ") + o->name + " gives " + r);
      } else if (o->kind == 'u' || (o->kind == 'm' && !c.onmem)) {
        const bool i = r.compare(0, 2, "i:") == 0;
        if (r.find("PRECONDITION_ERROR") != (i ? 2u : 0u) && !(i && r.find("i:NOT_FOUND") == 0)) Bad(std::string("read-only: ") + o->name + " gives " + r);
        if (e.calls && strcmp(o->name, "ProcessEachWrite")) Bad(std::string("read-only: ") + o->name + " calls the processor");
      } else if (o->kind == 'm') { if (r.find("SUCCESS") != 0 && r.find("PRECONDITION_ERROR") != 0) Bad(std::string("read-only: ") + o->name + " gives " + r);
      } else if (r.find("SUCCESS") != 0) Bad(std::string("read-only: ") + o->name + " gives " + r);
      if (!d->IsOpen() || d->IsWritable() || !d->IsHealthy()) Bad(std::string("read-only: the state changed by ") + o->name);
    }
    if (!c.onmem && err.empty()) { const std::string after = Content(d.get()); if (after != before) Bad("read-only: the content became " + after); }
    std::string df = DiffFiles(files, ReadDir(dir));
    if (!df.empty()) Bad("read-only, before closing: " + df);
    it.reset();
    wit.reset();
    s = d->Close();
    if (s != Status::SUCCESS) Bad("closing: " + ToString(s));
    df = DiffFiles(files, ReadDir(dir));
    if (!df.empty()) Bad("read-only: " + df);
    if (w->Close() != Status::SUCCESS) Bad("closing the twin");
    CheckFile("read-only");
  }
  // Opening an opened database is refused and changes nothing.
  void Twice(bool writable, int kind, const std::vector<const Op*>& ops) {
    if (!Create(path) || !Create(out + "/" + c.file)) return;
    d.reset(c.make());
    Status s = c.open(d.get(), path, writable, 0);
    if (s != Status::SUCCESS) return Bad("opening: " + ToString(s));
    it = d->MakeIterator();
    it->First();
    std::string k0, k1;
    it->Get(&k0);
    const FilesOf others = ReadDir(out);
    const std::string before = Content(d.get());
    const std::string p = kind & 1 ? path : out + "/" + c.file;
    s = kind & 4 ? d->Open(p, kind & 2, File::OPEN_TRUNCATE) : c.open(d.get(), p, kind & 2, File::OPEN_TRUNCATE);
    if (s != Status::PRECONDITION_ERROR) Bad("opening twice gives " + ToString(s));
    if (!d->IsOpen() || d->IsWritable() != writable) Bad("opening twice changes the state");
    if (d->GetFilePathSimple() != path) Bad("opening twice changes the path");
    if (Content(d.get()) != before) Bad("opening twice changes the content to " + Content(d.get()));
    it->Get(&k1);
    if (k0 != k1) Bad("opening twice moves the iterator");
    const std::string df = DiffFiles(others, ReadDir(out));
    if (!df.empty()) Bad("opening twice: " + df);
    if (writable && d->Set("zz", "after") != Status::SUCCESS) Bad("updating fails afterwards");
    for (auto* o : ops) { Env e = E(); o->run(e); }
    it.reset();
    if (d->Close() != Status::SUCCESS) Bad("closing fails afterwards");
    if (ops.empty()) {
      std::unique_ptr<DBM> x(c.make());
      if (c.open(x.get(), path, false, 0) != Status::SUCCESS) Bad("the file cannot be opened afterwards");
      if (x->CountSimple() != (int64_t)DATA.size() + writable || (writable && x->GetSimple("zz") != "after")) Bad("the file has another content afterwards");
      x->Close();
    }
  }
};

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const auto& args = mc::args();
  const bool th = Thorough();
  const double deadline = Now() + args.time;
  std::vector<Cfg> cfgs;
  auto file = [](int cls) -> std::unique_ptr<File> { if (cls == 4) return std::make_unique<StdFile>(); return AnyFile(cls); };
  for (bool app : {false, true}) for (int cls : {0, 3, 4}) {
    if (app && cls == 4) continue;
    cfgs.push_back({std::string("hash ") + (app ? "appending " : "in-place ") + std::to_string(cls), "casket.tkh", false, false, [=] { return (DBM*)new HashDBM(file(cls)); },
                    [=](DBM* d, const std::string& p, bool w, int o) { auto t = TinyHash(app, 3); return dynamic_cast<HashDBM*>(d)->OpenAdvanced(p, w, o, t); }});
  }
  for (int cls : {0, 1}) {
    cfgs.push_back({"tree " + std::to_string(cls), "casket.tkt", true, false, [=] { return (DBM*)new TreeDBM(file(cls)); },
                    [=](DBM* d, const std::string& p, bool w, int o) { auto t = TinyTree(1, 2); return dynamic_cast<TreeDBM*>(d)->OpenAdvanced(p, w, o, t); }});
    cfgs.push_back({"skip " + std::to_string(cls), "casket.tks", true, false, [=] { return (DBM*)new SkipDBM(file(cls)); },
                    [=](DBM* d, const std::string& p, bool w, int o) { return dynamic_cast<SkipDBM*>(d)->OpenAdvanced(p, w, o, TinySkip()); }});
  }
  auto plain = [](DBM* d, const std::string& p, bool w, int o) { return d->Open(p, w, o); };
  cfgs.push_back({"tiny", "casket.tkmt", false, true, [=] { return (DBM*)new TinyDBM(file(1), 3); }, plain});
  cfgs.push_back({"baby", "casket.tkmb", true, true, [=] { return (DBM*)new BabyDBM(file(0)); }, plain});
  cfgs.push_back({"cache", "casket.tkmc", false, true, [=] { return (DBM*)new CacheDBM(file(4), 1000); }, plain});
  cfgs.push_back({"stdhash", "casket.tksh", false, true, [=] { return (DBM*)new StdHashDBM(file(1), 3); }, plain});
  cfgs.push_back({"stdtree", "casket.tkst", true, true, [=] { return (DBM*)new StdTreeDBM(file(1)); }, plain});
  struct { const char* n; Params p; bool ord, mem; } polys[] = {{"tkh", {{"num_buckets", "3"}}, false, false}, {"tkt", {{"max_page_size", "1"}, {"max_branches", "2"}, {"num_buckets", "3"}}, true, false}, {"tks", {{"step_unit", "2"}}, true, false}};
  for (auto& x : polys) {
    const Params ps = x.p;
    cfgs.push_back({std::string("poly ") + x.n, std::string("casket.") + x.n, x.ord, x.mem, [] { return (DBM*)new PolyDBM(); }, [=](DBM* d, const std::string& p, bool w, int o) { return dynamic_cast<PolyDBM*>(d)->OpenAdvanced(p, w, o, ps); },
                    [=](DBM* d, const std::string& p) { Params q = ps; q["ulog_nothing"] = "1"; return dynamic_cast<PolyDBM*>(d)->OpenAdvanced(p, true, 0, q); }});
    Params sp = ps;
    sp["num_shards"] = "2";
    cfgs.push_back({std::string("shard ") + x.n, std::string("casket.") + x.n, x.ord, x.mem, [] { return (DBM*)new ShardDBM(); }, [=](DBM* d, const std::string& p, bool w, int o) { return dynamic_cast<ShardDBM*>(d)->OpenAdvanced(p, w, o, sp); },
                    [=](DBM* d, const std::string& p) { Params q = sp; q["ulog_nothing"] = "1"; return dynamic_cast<ShardDBM*>(d)->OpenAdvanced(p, true, 0, q); }});
  }
  long index = 0, cases = 0, steps = 0;
  bool expired = false;
  auto run = [&](const Cfg& c, const std::string& what, size_t n, std::function<void(Case&)> f) {
    const std::string id = c.name + "/" + what;
    if (!args.only.empty() ? args.only != id : index++ % args.num_workers != args.worker) return;
    if (expired) { mc::Stat("incomplete", 1); return; }
    if (args.only.empty() && (cases & 15) == 0 && Now() > deadline) { expired = true; mc::Note("time ran out in " + id); return; }
    mc::SetContext(id);
    alarm(20);
    std::string err;
    {
      Case k(c, Scratch());
      f(k);
      k.it.reset();
      err = k.err;
    }
    alarm(0);
    cases++;
    steps += 1 + n;
    if (!err.empty()) { if (getenv("VP_ALL")) printf("ALL %s %s\n", id.c_str(), err.c_str()); else mc::Violation(id, err); }
  };
  const std::vector<Op> common = AllOps();
  for (int depth = 1; depth <= (th ? 3 : 2); depth++) for (auto& c : cfgs) {
    const std::string cls = c.name.substr(0, c.name.find(' '));
    std::vector<Op> ops = common;
    for (auto& o : OwnOps(cls)) ops.push_back(o);
    const bool facade = cls == "poly" || cls == "shard";
    std::vector<const Op*> seq;
    std::function<void()> rec = [&] {
      if ((int)seq.size() < depth) {
        for (auto& o : ops) { if (depth > 2 && seq.size() == 1 && !strchr("ruU", o.kind)) continue; seq.push_back(&o); rec(); seq.pop_back(); }
        return;
      }
      std::string n;
      for (auto* o : seq) n += std::string(o->name) + ".";
      const size_t z = seq.size();
      run(c, "unopened:" + n, z, [&](Case& k) { k.Unopened(seq); });
      run(c, "closed:" + n, z, [&](Case& k) { k.AfterClose(seq, false); });
      if (!facade) run(c, "closed iterator:" + n, z, [&](Case& k) { k.AfterClose(seq, true); });
      if (depth < 2) for (int f = 0; f < 5; f++) { if (f == 2 ? c.onmem : f == 4 && !c.wrong) continue; run(c, "failed " + std::to_string(f) + ":" + n, z, [&](Case& k) { k.AfterFailure(seq, f); }); }
      run(c, "read-only:" + n, z, [&](Case& k) { k.ReadOnly(seq); });
      if (depth < 2) for (int t = 0; t < 8; t++) for (bool w : {false, true}) run(c, std::string("twice ") + (w ? "w" : "r") + std::to_string(t) + ":" + n, z, [&](Case& k) { k.Twice(w, t, seq); });
    };
    if (depth == 1) for (int t = 0; t < 8; t++) for (bool w : {false, true}) run(c, std::string("twice ") + (w ? "w" : "r") + std::to_string(t) + ":", 0, [&](Case& k) { k.Twice(w, t, {}); });
    rec();
  }
  mc::Stat("states", cases);
  mc::Stat("transitions", steps);
  mc::Stat("traces", cases);
  mc::FinishReport();
}
