// Rebuilding, copying, exporting, importing and restoring after every history: the content stays, here and there.
#include "conc.h"
#include "crash_map.h"
#include "dbs.h"
#include "seqstub.h"
#include "tkrzw_dbm_common_impl.h"
#include "tkrzw_dbm_poly.h"
#include "tkrzw_dbm_shard.h"
#include "tkrzw_file_std.h"
#include "tkrzw_file_util.h"
using namespace tkrzw;
static double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
typedef std::vector<std::pair<std::string, std::string>> Recs;
typedef std::map<std::string, std::string> Params;

struct Cfg {
  std::string name, file;
  bool ordered, mem;
  std::function<DBM*()> make;
  std::function<Status(DBM*, const std::string&, bool, int)> open;
  std::string cipher;
  KeyComparator comp = nullptr;
  std::vector<std::string> tunings;  // names of tunings to rebuild to
};
static std::string Show(const Recs& r) {
  std::string s = "[";
  for (auto& x : r) s += (s.size() > 1 ? ", " : "") + ShowMap(Map{{x.first, x.second}});
  return s + "]";
}
static HashDBM::TuningParameters HashTo(const std::string& n, const std::string& key) {
  HashDBM::TuningParameters t;
  t.cipher_key = key;
  if (n == "b1") t.num_buckets = 1;
  if (n == "b7w5") { t.num_buckets = 7; t.offset_width = 5; }
  if (n == "w3a5") { t.offset_width = 3; t.align_pow = 5; }
  if (n == "a0fbp1") { t.align_pow = 0; t.fbp_capacity = 1; }
  if (n == "crc8") t.record_crc_mode = HashDBM::RECORD_CRC_8;
  if (n == "crc32") t.record_crc_mode = HashDBM::RECORD_CRC_32;
  if (n == "nocrc") t.record_crc_mode = HashDBM::RECORD_CRC_NONE;
  if (n == "zlib") t.record_comp_mode = HashDBM::RECORD_COMP_ZLIB;
  if (n == "lz4") t.record_comp_mode = HashDBM::RECORD_COMP_LZ4;
  if (n == "aes") { t.record_comp_mode = HashDBM::RECORD_COMP_AES; t.cipher_key = "0123456789abcdef"; }
  if (n == "plain") t.record_comp_mode = HashDBM::RECORD_COMP_NONE;
  if (n == "append") t.update_mode = HashDBM::UPDATE_APPENDING;
  if (n == "inplace") t.update_mode = HashDBM::UPDATE_IN_PLACE;
  if (n == "big") { t.num_buckets = 1000; t.min_read_size = 300; t.cache_buckets = 1; t.update_mode = HashDBM::UPDATE_APPENDING; }
  return t;
}
static TreeDBM::TuningParameters TreeTo(const std::string& n, KeyComparator comp) {
  TreeDBM::TuningParameters t;
  static_cast<HashDBM::TuningParameters&>(t) = HashTo(n, "");
  t.key_comparator = comp;
  if (n == "p1b2") { t.max_page_size = 1; t.max_branches = 2; }
  if (n == "p60") { t.max_page_size = 60; t.max_branches = 3; t.max_cached_pages = 1; }
  if (n == "p5000") t.max_page_size = 5000;
  if (n == "pw") { t.page_update_mode = TreeDBM::PAGE_UPDATE_WRITE; t.max_page_size = 30; t.max_branches = 2; }
  return t;
}
static SkipDBM::TuningParameters SkipTo(const std::string& n) {
  SkipDBM::TuningParameters t;
  if (n == "s2l1") { t.step_unit = 2; t.max_level = 1; }
  if (n == "s3l3w5") { t.step_unit = 3; t.max_level = 3; t.offset_width = 5; }
  if (n == "w3") { t.offset_width = 3; t.max_cached_records = 1; t.sort_mem_size = 1; }
  return t;
}
static bool Differ(const Files& a, const Files& b) {
  if (a.size() != b.size()) return true;
  for (auto& x : a) { auto it = b.find(x.first); if (it == b.end() || it->second.size != x.second.size || it->second.hash != x.second.hash) return true; }
  return false;
}
// The setting of one case.
struct Case {
  const Cfg& c;
  std::map<std::string, const Cfg*>* all;
  std::string dir, path, out, err;
  std::unique_ptr<DBM> d;
  Recs recs;       // what the source has, in its order if it has one
  bool readonly = false;
  std::string opaque;
  Case(const Cfg& cfg, const std::string& root) : c(cfg), dir(root + "/db"), out(root + "/out") {
    ::mkdir(dir.c_str(), 0755);
    ::mkdir(out.c_str(), 0755);
    CleanDir(dir);
    CleanDir(out);
    path = dir + "/" + c.file;
  }
  void Bad(const std::string& w) { if (err.empty()) err = w; }
  bool Ok(const std::string& what, const Status& s) { if (s != Status::SUCCESS) Bad(what + ": " + ToString(s)); return s == Status::SUCCESS; }
  static bool Ordered(DBM* x) { return x->IsOrdered(); }
  // All records of a database, through ProcessEach, an iterator, Get and Count.
  Recs Dump(DBM* x, const std::string& who) {
    struct P final : public DBM::RecordProcessor {
      Recs r;
      std::string_view ProcessFull(std::string_view k, std::string_view v) override { r.emplace_back(k, v); return NOOP; }
    } p;
    Ok(who + ": ProcessEach", x->ProcessEach(&p, false));
    Recs r = p.r;
    const bool shard = dynamic_cast<ShardDBM*>(x) != nullptr;
    if (!Ordered(x) || shard) std::sort(r.begin(), r.end());
    Recs i;
    auto it = x->MakeIterator();
    Status s = it->First();
    std::string k, v;
    while (s == Status::SUCCESS && i.size() <= r.size() + 5) { s = it->Get(&k, &v); if (s == Status::SUCCESS) { i.emplace_back(k, v); s = it->Next(); } }
    if (!Ordered(x)) std::sort(i.begin(), i.end());
    if (i != r) Bad(who + ": the iterator gives " + Show(i) + " and ProcessEach " + Show(r));
    bool dup = false;
    for (size_t j = 1; j < r.size(); j++) dup |= r[j].first == r[j - 1].first;
    for (auto& e : r) if (!dup) { v = "-"; if (x->Get(e.first, &v) != Status::SUCCESS || v != e.second) Bad(who + ": Get of a record gives another value"); }
    if (x->CountSimple() != (int64_t)r.size()) Bad(who + ": Count is " + std::to_string(x->CountSimple()) + " for " + std::to_string(r.size()));
    return r;
  }
  void Validate(DBM* x, const std::string& who) {
    if (!x->IsHealthy()) Bad(who + ": not healthy");
    if (auto* h = dynamic_cast<HashDBM*>(x)) { Ok(who + ": ValidateHashBuckets", h->ValidateHashBuckets()); Ok(who + ": ValidateRecords", h->ValidateRecords(-1, -1)); if (h->IsAutoRestored()) Bad(who + ": restored"); }
    if (auto* h = dynamic_cast<TreeDBM*>(x)) { Ok(who + ": ValidateHashBuckets", h->ValidateHashBuckets()); Ok(who + ": ValidateRecords", h->ValidateRecords(-1, -1)); if (h->IsAutoRestored()) Bad(who + ": restored"); }
    if (auto* h = dynamic_cast<SkipDBM*>(x)) { Ok(who + ": ValidateRecords", h->ValidateRecords()); if (h->IsAutoRestored()) Bad(who + ": restored"); }
  }
  void Same(DBM* x, const std::string& who, Recs want) {
    Recs got = Dump(x, who);
    if (!Ordered(x) || !c.ordered || (c.comp && who == "the other")) { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); }
    if (got != want) Bad(who + " has " + Show(got) + " instead of " + Show(want));
    Validate(x, who);
  }
  static Status Sync(DBM* x) { if (auto* s = dynamic_cast<SkipDBM*>(x)) return s->SynchronizeAdvanced(false, nullptr, SkipDBM::ReduceToLast); return x->Synchronize(false); }
  // Updates afterwards work: these are applied, and checked before and after reopening.
  void Follow(DBM* x, const std::string& who, const std::function<Status(DBM*)>& reopen) {
    if (!err.empty()) return;
    const bool skip = dynamic_cast<SkipDBM*>(x) != nullptr;
    std::map<std::string, std::string> m;
    for (auto& r : Dump(x, who)) m[r.first] = r.second;
    auto set = [&](const std::string& k, const std::string& v) { Ok(who + ": Set", x->Set(k, v)); m[k] = v; if (skip) Ok(who + ": Synchronize", Sync(x)); };
    if (!m.empty()) {
      const std::string k = m.begin()->first, l = m.rbegin()->first;
      set(k, m[k] + std::string(20, 'F'));
      Ok(who + ": Remove", x->Remove(l));
      m.erase(l);
      if (skip) Ok(who + ": Synchronize", Sync(x));
    }
    set("zz-new", "N");
    set("b-new", "");
    set("a-long", std::string(90, 'q'));
    if (m.size() > 3) set(m.begin()->first, "s");
    for (int round = 0; round < 2 && err.empty(); round++) {
      Recs got = Dump(x, who + " after updates"), want(m.begin(), m.end());
      std::sort(got.begin(), got.end());
      if (got != want) Bad(who + " has " + Show(got) + " after updates instead of " + Show(want) + (round ? " when opened again" : ""));
      Validate(x, who + " after updates");
      if (round == 0) { Ok(who + ": opening again", reopen(x)); }
    }
  }
  Status Reopen(DBM* x, const Cfg& cc, const std::string& p) { Status s = x->Close(); s |= cc.open(x, p, true, 0); return s; }
  // The other database file.
  void CheckFile(const Cfg& cc, const std::string& p, const std::string& who, const Recs& want) {
    if (!err.empty()) return;
    std::unique_ptr<DBM> x(cc.make());
    if (!Ok(who + ": opening", cc.open(x.get(), p, true, File::OPEN_NO_CREATE))) return;
    Same(x.get(), who, want);
    Meta(x.get(), who);
    Follow(x.get(), who, [&](DBM* y) { return Reopen(y, cc, p); });
    Ok(who + ": closing", x->Close());
  }
  void Meta(DBM* x, const std::string& who) {
    std::string o;
    int type = 0;
    if (auto* h = dynamic_cast<HashDBM*>(x)) { o = h->GetOpaqueMetadata(); type = h->GetDatabaseType(); }
    else if (auto* h = dynamic_cast<TreeDBM*>(x)) { o = h->GetOpaqueMetadata(); type = h->GetDatabaseType(); }
    else if (auto* h = dynamic_cast<SkipDBM*>(x)) { o = h->GetOpaqueMetadata(); type = h->GetDatabaseType(); }
    else return;
    if (opaque.empty()) return;
    if (type != 77) Bad(who + ": the database type is " + std::to_string(type) + " instead of 77");
    if (o.substr(0, opaque.size()) != opaque) Bad(who + ": the opaque metadata are changed");
  }
  void SetMeta() {
    if (auto* h = dynamic_cast<HashDBM*>(d.get())) { h->SetDatabaseType(77); h->SetOpaqueMetadata("OPQ"); opaque = "OPQ"; }
    if (auto* h = dynamic_cast<TreeDBM*>(d.get())) { h->SetDatabaseType(77); h->SetOpaqueMetadata("OPQ"); opaque = "OPQ"; }
    if (auto* h = dynamic_cast<SkipDBM*>(d.get())) { h->SetDatabaseType(77); h->SetOpaqueMetadata("OPQ"); opaque = "OPQ"; }
  }
  bool Setup(const std::vector<COp>& base, const std::vector<COp>& ops, char state) {
    d.reset(c.make());
    if (!Ok("opening", c.open(d.get(), path, true, 0))) return false;
    Map m;
    const bool skip = dynamic_cast<SkipDBM*>(d.get()) != nullptr;
    SetMeta();
    auto play = [&](const COp& o) {
      if (o.kind == 'X') { Ok("closing", d->Close()); d.reset(c.make()); return Ok("opening", c.open(d.get(), path, true, 0)); }
      const Status s = CDo(d.get(), o, nullptr);
      m = CStates(m, o).back();
      if (skip) Ok("synchronizing", Sync(d.get()));
      return Ok(CName(o), s);
    };
    for (auto& o : base) if (!play(o)) return false;
    for (auto& o : ops) if (!play(o)) return false;
    if (state != 'o') {
      if (!Ok("closing", d->Close())) return false;
      d.reset(c.make());
      readonly = state == 'r';
      if (!Ok("opening", c.open(d.get(), path, !readonly, 0))) return false;
    }
    recs = Dump(d.get(), "the source");
    Recs s = recs, w(m.begin(), m.end());
    std::sort(s.begin(), s.end());
    if (s != w) Bad("the source has " + Show(s) + " instead of " + Show(w));
    return err.empty();
  }
  // The source is what it was, and works.
  void Source() {
    if (!err.empty()) return;
    Same(d.get(), "the source afterwards", recs);
    Meta(d.get(), "the source afterwards");
    if (!readonly) Follow(d.get(), "the source", [&](DBM* y) { return Reopen(y, c, path); });
    Ok("closing at last", d->Close());
  }
  static Params Count(const Recs& r) { Params p; for (auto& x : r) p[x.first] = x.second; return p; }
  void Do(const std::string& t) {
    const std::string other = out + "/" + c.file;
    auto arg = [&] { return t.substr(t.find(':') + 1); };
    auto is = [&](const char* n) { return t == n || t.rfind(std::string(n) + ":", 0) == 0; };
    std::unique_ptr<File> f = AnyFile((int)(recs.size() % 4));
    std::string fname = out + "/records";
    auto fopen = [&] { return Ok("opening the file", f->Open(fname, true, File::OPEN_TRUNCATE)); };
    auto* h = dynamic_cast<HashDBM*>(d.get());
    auto* tr = dynamic_cast<TreeDBM*>(d.get());
    auto* sk = dynamic_cast<SkipDBM*>(d.get());
    if (t == "rebuild") { Ok(t, d->Rebuild()); }
    else if (is("rebuild")) {
      const bool hard = arg() == "crc8", skip = arg() == "b1";
      if (h) Ok(t, h->RebuildAdvanced(HashTo(arg(), c.cipher), skip, hard));
      if (tr) Ok(t, tr->RebuildAdvanced(TreeTo(arg(), c.comp), skip, hard));
      if (sk) Ok(t, sk->RebuildAdvanced(SkipTo(arg()), hard));
      // A changed cipher needs the new key.
      if (arg() == "aes" && err.empty()) {
        Same(d.get(), "the database", recs);
        Ok("closing", d->Close());
        if (h) Ok("opening", h->OpenAdvanced(path, true, 0, HashTo("aes", "")));
        Same(d.get(), "the database opened again", recs);
        Ok("closing", d->Close());
        return;
      }
    } else if (t == "copy" || t == "copyhard") {
      if (!Ok(t, d->CopyFileData(other, t == "copyhard"))) return;
      if (dynamic_cast<ShardDBM*>(d.get()) == nullptr || true) CheckFile(c, other, "the copy", recs);
    } else if (t == "synccopy") {
      struct P final : public DBM::FileProcessor { std::string to; Status s; void Process(const std::string& p) override { s |= CopyFileData(p, to); } } p;
      p.to = other;
      Ok(t, d->Synchronize(false, &p));
      Ok(t, p.s);
      CheckFile(c, other, "the copy", recs);
    } else if (is("export")) {
      const Cfg& cc = *all->at(arg());
      std::unique_ptr<DBM> x(cc.make());
      const std::string p = out + "/" + cc.file;
      if (!Ok("opening the other", cc.open(x.get(), p, true, 0))) return;
      if (!Ok(t, d->Export(x.get()))) return;
      if (dynamic_cast<SkipDBM*>(x.get())) Sync(x.get());
      const std::string o = opaque;
      opaque.clear();
      Same(x.get(), "the other", recs);
      Follow(x.get(), "the other", [&](DBM* y) { return Reopen(y, cc, p); });
      opaque = o;
      Ok("closing the other", x->Close());
    } else if (is("flat") || is("tsv") || is("tsvraw")) {
      if (!fopen()) return;
      const bool flat = is("flat"), esc = is("tsv");
      if (!Ok(t, flat ? ExportDBMToFlatRecords(d.get(), f.get()) : ExportDBMToTSV(d.get(), f.get(), esc))) return;
      Ok("closing the file", f->Close());
      f = AnyFile((int)((recs.size() + 1) % 4));
      Ok("opening the file", f->Open(fname, false));
      const Cfg& cc = *all->at(arg());
      std::unique_ptr<DBM> x(cc.make());
      const std::string p = out + "/" + cc.file;
      if (!Ok("opening the other", cc.open(x.get(), p, true, 0))) return;
      if (!Ok(t + " importing", flat ? ImportDBMFromFlatRecords(x.get(), f.get()) : ImportDBMFromTSV(x.get(), f.get(), esc))) return;
      if (dynamic_cast<SkipDBM*>(x.get())) Sync(x.get());
      Recs want = recs;
      if (!flat && !esc) for (auto& r : want) for (auto* s : {&r.first, &r.second}) for (auto& ch : *s) if ((unsigned char)ch < ' ' || ch == 0x7f) ch = ' ';
      Same(x.get(), "the other", want);
      Ok("closing the other", x->Close());
      Ok("closing the file", f->Close());
    } else if (t == "keys" || t == "lines") {
      if (!fopen()) return;
      if (!Ok(t, t == "keys" ? ExportDBMKeysToFlatRecords(d.get(), f.get()) : ExportDBMKeysAsLines(d.get(), f.get()))) return;
      std::vector<std::string> got, want;
      if (t == "keys") {
        FlatRecordReader rd(f.get());
        std::string_view s;
        FlatRecord::RecordType ty;
        while (rd.Read(&s, &ty) == Status::SUCCESS) if (ty == FlatRecord::RECORD_NORMAL) got.emplace_back(s);
      } else {
        FileReader rd(f.get());
        std::string s;
        while (rd.ReadLine(&s) == Status::SUCCESS) { if (!s.empty() && s.back() == '\n') s.pop_back(); got.push_back(s); }
      }
      for (auto& r : recs) want.push_back(r.first);
      if (!c.ordered || dynamic_cast<ShardDBM*>(d.get())) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
      if (got != want) Bad("the exported keys are not those of the source");
      Ok("closing the file", f->Close());
    } else if (is("restore")) {
      Ok("closing", d->Close());
      const Files before = ReadFiles(dir);
      const int64_t end = arg() == "all" ? -1 : arg() == "sync" ? 0 : GetFileSize(path);
      if (h) Ok(t, HashDBM::RestoreDatabase(path, other, end, c.cipher));
      if (tr) Ok(t, TreeDBM::RestoreDatabase(path, other, end, c.cipher, c.comp));
      if (sk) Ok(t, SkipDBM::RestoreDatabase(path, other));
      if (Differ(ReadFiles(dir), before)) Bad("restoring changes the source");
      if (ReadFiles(out).size() != 1) Bad("restoring leaves other files");
      CheckFile(c, other, "the restored", recs);
      Ok("opening the source", c.open(d.get(), path, !readonly, 0));
    } else if (is("forward") || is("backward")) {
      Ok("closing", d->Close());
      const Files before = ReadFiles(dir);
      std::unique_ptr<DBM> x(c.make());
      auto* y = dynamic_cast<HashDBM*>(x.get());
      if (!Ok("opening the other", c.open(y, other, true, 0))) return;
      const std::string a = arg();
      const int64_t end = a == "sync" ? 0 : -1;
      Recs want = recs;
      if (a == "extra") { y->Set("zz-extra", "E"); want.emplace_back("zz-extra", "E"); }
      if (a == "file") {
        f->Open(path, false);
        Ok(t, is("forward") ? y->ImportFromFileForward(f.get(), false, -1, end) : y->ImportFromFileBackward(f.get(), false, -1, end));
        f->Close();
      } else Ok(t, is("forward") ? y->ImportFromFileForward(path, false, -1, end) : y->ImportFromFileBackward(path, false, -1, end));
      if (Differ(ReadFiles(dir), before)) Bad("importing changes the source");
      Same(y, "the importing database", want);
      Follow(y, "the importing database", [&](DBM* z) { return Reopen(z, c, other); });
      y->Close();
      Ok("opening the source", c.open(d.get(), path, !readonly, 0));
    } else if (t == "merge") {
      Ok("closing", d->Close());
      const Files before = ReadFiles(dir);
      std::unique_ptr<DBM> x(c.make());
      auto* y = dynamic_cast<SkipDBM*>(x.get());
      if (!Ok("opening the other", c.open(y, other, true, 0))) return;
      y->Set("c-extra", "E");
      Ok(t, y->MergeSkipDatabase(path));
      Ok("synchronizing", y->Synchronize(false));
      if (Differ(ReadFiles(dir), before)) Bad("merging changes the source");
      Recs want = recs;
      want.emplace_back("c-extra", "E");
      std::sort(want.begin(), want.end());
      Same(y, "the merged", want);
      Follow(y, "the merged", [&](DBM* z) { return Reopen(z, c, other); });
      y->Close();
      Ok("opening the source", c.open(d.get(), path, !readonly, 0));
    }
  }
};

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const auto& args = mc::args();
  const bool th = Thorough();
  const double deadline = Now() + args.time;
  std::vector<Cfg> cfgs;
  auto file = [](int cls) -> std::unique_ptr<File> {
    if (cls == 4) return std::make_unique<StdFile>();
    auto f = AnyFile(cls);
    f->SetAllocationStrategy(512, 1.1);
    return f;
  };
  const std::vector<std::string> hashto = {"", "b1", "b7w5", "w3a5", "a0fbp1", "crc8", "crc32", "nocrc", "zlib", "lz4", "aes", "plain", "append", "inplace", "big"};
  auto hash = [&](const std::string& n, int cls, HashDBM::TuningParameters t) {
    const std::string key(t.cipher_key);
    cfgs.push_back({n, "casket.tkh", false, false, [=] { return (DBM*)new HashDBM(file(cls)); },
                    [=](DBM* d, const std::string& p, bool w, int o) { auto u = t; u.cipher_key = key; return dynamic_cast<HashDBM*>(d)->OpenAdvanced(p, w, o, u); }, key, nullptr, hashto});
  };
  for (bool app : {false, true}) {
    const std::string a = app ? "append" : "inplace";
    auto t = TinyHash(app, 2);
    hash(a, 0, t);
    t.align_pow = 0; hash(a + "-a0", 1, t);
    t.num_buckets = 1; t.min_read_size = 300; t.align_pow = 6; hash(a + "-a6", 3, t);
    t = TinyHash(app, 3); t.record_crc_mode = HashDBM::RECORD_CRC_32; hash(a + "-crc32", 2, t);
    t.record_comp_mode = HashDBM::RECORD_COMP_ZLIB; t.cache_buckets = 1; hash(a + "-zlib", 4, t);
    t = TinyHash(app, 3); t.record_comp_mode = HashDBM::RECORD_COMP_AES; t.cipher_key = "secret-key-12345"; hash(a + "-aes", 0, t);
  }
  const std::vector<std::string> treeto = {"", "p1b2", "p60", "p5000", "pw", "b1", "crc8", "zlib", "append", "w3a5"};
  auto tree = [&](const std::string& n, int cls, TreeDBM::TuningParameters t) {
    cfgs.push_back({n, "casket.tkt", true, false, [=] { return (DBM*)new TreeDBM(file(cls)); },
                    [=](DBM* d, const std::string& p, bool w, int o) { return dynamic_cast<TreeDBM*>(d)->OpenAdvanced(p, w, o, t); }, "", t.key_comparator, treeto});
  };
  tree("tree", 0, TinyTree(1, 2));
  { auto t = TinyTree(60, 2); t.update_mode = HashDBM::UPDATE_APPENDING; tree("tree-append", 1, t); }
  { auto t = TinyTree(1, 2); t.page_update_mode = TreeDBM::PAGE_UPDATE_WRITE; t.key_comparator = LexicalCaseKeyComparator; tree("tree-write", 3, t); }
  { auto t = TinyTree(1, 3); t.key_comparator = [](std::string_view a, std::string_view b) { return b.compare(a); }; t.record_crc_mode = HashDBM::RECORD_CRC_16; tree("tree-custom", 2, t); }
  for (int i = 0; i < 2; i++) {
    auto t = TinySkip();
    if (i) { t.step_unit = 4; t.max_level = 3; t.offset_width = 4; t.max_cached_records = 1; }
    cfgs.push_back({i ? "skip-4" : "skip", "casket.tks", true, false, [=] { return (DBM*)new SkipDBM(file(i)); },
                    [=](DBM* d, const std::string& p, bool w, int o) { return dynamic_cast<SkipDBM*>(d)->OpenAdvanced(p, w, o, t); }, "", nullptr, {"", "s2l1", "s3l3w5", "w3"}});
  }
  auto plain = [](DBM* d, const std::string& p, bool w, int o) { return d->Open(p, w, o); };
  cfgs.push_back({"tiny", "casket.tkmt", false, true, [=] { return (DBM*)new TinyDBM(file(1), 3); }, plain});
  cfgs.push_back({"baby", "casket.tkmb", true, true, [=] { return (DBM*)new BabyDBM(file(0)); }, plain});
  cfgs.push_back({"cache", "casket.tkmc", false, true, [=] { return (DBM*)new CacheDBM(file(3), 1000); }, plain});
  cfgs.push_back({"stdhash", "casket.tksh", false, true, [=] { return (DBM*)new StdHashDBM(file(4), 3); }, plain});
  cfgs.push_back({"stdtree", "casket.tkst", true, true, [=] { return (DBM*)new StdTreeDBM(file(2)); }, plain});
  struct { const char* n; Params p; bool ord; } polys[] = {{"tkh", {{"num_buckets", "3"}}, false}, {"tkt", {{"max_page_size", "1"}, {"max_branches", "2"}, {"num_buckets", "3"}}, true}, {"tkmb", {}, true}};
  for (auto& x : polys) {
    const Params ps = x.p;
    cfgs.push_back({std::string("poly-") + x.n, std::string("casket.") + x.n, x.ord, false, [] { return (DBM*)new PolyDBM(); }, [=](DBM* d, const std::string& p, bool w, int o) { return dynamic_cast<PolyDBM*>(d)->OpenAdvanced(p, w, o, ps); }});
    Params sp = ps;
    sp["num_shards"] = "2";
    cfgs.push_back({std::string("shard-") + x.n, std::string("casket.") + x.n, x.ord, false, [] { return (DBM*)new ShardDBM(); }, [=](DBM* d, const std::string& p, bool w, int o) { return dynamic_cast<ShardDBM*>(d)->OpenAdvanced(p, w, o, sp); }});
  }
  std::map<std::string, const Cfg*> by;
  for (auto& c : cfgs) by[c.name] = &c;
  long index = 0, cases = 0, steps = 0;
  bool expired = false;
  auto hname = [](const std::vector<COp>& ops) { std::string s; for (auto& o : ops) s += (s.empty() ? "" : ".") + CName(o); return s.empty() ? std::string("none") : s; };
  auto transforms = [&](const Cfg& c, char st, bool brief) {
    std::vector<std::string> v;
    const bool h = !c.tunings.empty() && c.file == "casket.tkh", t = c.file == "casket.tkt" && !c.tunings.empty(), s = c.file == "casket.tks";
    if (st != 'r') { v.push_back("rebuild"); for (auto& x : c.tunings) if (!x.empty()) v.push_back("rebuild:" + x); else if (h || t || s) v.push_back("rebuild:"); }
    for (auto x : {"copy", "copyhard", "synccopy"}) if ((!c.mem || std::string(x) != "synccopy") && !(c.name.rfind("shard", 0) == 0 && std::string(x) == "synccopy") && !(st == 'r' && std::string(x) == "synccopy")) v.push_back(x);
    if (h || t) for (auto x : {"restore:all", "restore:sync", "restore:size"}) v.push_back(x);
    if (s) { v.push_back("restore:all"); v.push_back("merge"); }
    if (h) for (auto x : {"forward:path", "forward:file", "forward:sync", "forward:extra", "backward:path", "backward:file", "backward:sync", "backward:extra"}) v.push_back(x);
    if (!brief) for (auto x : {"export:inplace", "export:append", "export:tree", "export:skip", "export:tiny", "export:baby", "export:cache", "export:stdhash", "export:stdtree", "export:poly-tkt", "export:shard-tkh", "flat:inplace", "flat:tree", "tsv:append", "tsv:baby", "tsvraw:inplace", "tsvraw:skip", "keys", "lines"}) v.push_back(x);
    else for (auto x : {"export:inplace", "flat:tiny", "tsv:tree"}) v.push_back(x);
    return v;
  };
  auto run = [&](const Cfg& c, char st, const char* bname, const std::vector<COp>& base, const std::vector<COp>& ops, bool brief) {
    for (auto& t : transforms(c, st, brief)) {
      const std::string id = c.name + "/" + st + "/" + bname + ":" + hname(ops) + "/" + t;
      if (!args.only.empty() ? args.only != id : index++ % args.num_workers != args.worker) continue;
      if (expired) { mc::Stat("incomplete", 1); continue; }
      if (args.only.empty() && (cases & 15) == 0 && Now() > deadline) { expired = true; mc::Note("time ran out in " + id); continue; }
      mc::SetContext(id);
      alarm(20);
      Case k(c, Scratch());
      k.all = &by;
      if (k.Setup(base, ops, st)) { k.Do(t); if (k.d->IsOpen()) k.Source(); }
      alarm(0);
      cases++;
      steps += base.size() + ops.size() + 1;
      if (!k.err.empty()) { if (getenv("VP_ALL")) printf("ALL %s %s\n", id.c_str(), k.err.c_str()); else mc::Violation(id, k.err); }
    }
  };
  const std::vector<COp> base = {{'S', 0, 2}, {'S', 1, 1}, {'S', 2, 2}, {'S', 3, 3}, {'S', 4, 6}};
  const std::vector<COp> alpha = {{'S', 5, 2}, {'S', 5, 4}, {'S', 0, 3}, {'S', 0, 5}, {'S', 0, 0}, {'R', 0}, {'R', 1}, {'R', 3}, {'R', 4}, {'A', 1, 2}, {'M', 0, 3}, {'W', 1}, {'Y'}, {'B'}, {'C'}, {'X'}};
  for (auto& c : cfgs) for (char st : {'o', 'x', 'r'}) {
    run(c, st, "new", {}, {}, false);
    run(c, st, "new", {}, {{'S', 0, 2}}, false);
    run(c, st, "new", {}, {{'S', 0, 2}, {'R', 0}}, false);
    run(c, st, "", base, {}, false);
    for (auto& a : alpha) run(c, st, "", base, {a}, false);
  }
  for (auto& c : cfgs) for (char st : {'o', 'x'}) {
    std::vector<COp> many;
    for (int i = 0; i < 12; i++) many.push_back({'S', i, 2 + i % 4});
    for (int i = 0; i < 12; i += 2) many.push_back({'R', i});
    for (int i = 0; i < 12; i += 3) many.push_back({'S', i, 3});
    run(c, st, "many", many, {}, false);
    run(c, st, "many", many, {{'X'}, {'S', 2, 4}, {'R', 3}, {'B'}, {'A', 1, 2}, {'R', 5}, {'X'}, {'S', 8, 1}}, false);
  }
  const std::vector<COp> few = {{'S', 5, 4}, {'S', 0, 3}, {'S', 0, 5}, {'R', 0}, {'R', 3}, {'A', 1, 2}, {'C'}, {'X'}, {'B'}};
  for (auto& a : th ? alpha : few) for (auto& b : th ? alpha : few) for (auto& c : cfgs) run(c, 'x', "", base, {a, b}, true);
  if (th) for (auto& a : few) for (auto& b : few) for (auto& c : cfgs) run(c, 'o', "", base, {a, b}, true);
  if (th) for (auto& a : few) for (auto& b : few) for (auto& d : few) for (auto& c : cfgs) run(c, 'x', "", base, {a, b, d}, true);
  mc::Stat("states", cases);
  mc::Stat("transitions", steps);
  mc::Stat("traces", cases);
  mc::FinishReport();
}
