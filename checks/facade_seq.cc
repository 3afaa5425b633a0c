// PolyDBM, ShardDBM and the C interface: every sequence of operations must give what the database behind gives.
#include "seqops.h"
#include "iter_case.h"
#include "seqstub.h"
#include "capi.h"
#include <algorithm>
#include "tkrzw_dbm_common_impl.h"
#include "tkrzw_dbm_poly.h"
#include "tkrzw_dbm_shard.h"
#include "tkrzw_lib_common.h"
#include "tkrzw_str_util.h"
using namespace tkrzw;
typedef std::map<std::string, std::string> Params;
static double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string Join(const Params& p) { std::string s; for (auto& e : p) s += (s.empty() ? "" : ",") + e.first + "=" + e.second; return s; }
static std::string PartPath(const std::string& path, int i, int n) { char b[32]; sprintf(b, "-%05d-of-%05d", i, n); return path + b; }

static int Lev(const std::string& a, const std::string& b) {
  std::vector<int> p(b.size() + 1), q;
  for (size_t j = 0; j <= b.size(); j++) p[j] = j;
  for (size_t i = 1; i <= a.size(); i++) {
    q.assign(b.size() + 1, i);
    for (size_t j = 1; j <= b.size(); j++) q[j] = std::min({p[j] + 1, q[j - 1] + 1, p[j - 1] + (a[i - 1] != b[j - 1])});
    p = q;
  }
  return p[b.size()];
}
static std::string Low(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

// Every search mode, without a limit and with one, against the definition.
static std::string CheckSearch(DBM* d, bool ordered, bool merged) {
  std::vector<std::string> keys;
  Status s = d->ProcessEach([&](std::string_view k, std::string_view v) -> std::string_view {
    if (v.data() != DBM::RecordProcessor::NOOP.data()) keys.emplace_back(k);
    return DBM::RecordProcessor::NOOP;
  }, false);
  if (s != Status::SUCCESS) return "ProcessEach: " + ToString(s);
  std::vector<std::string> sorted = keys;
  std::sort(sorted.begin(), sorted.end());
  auto* c = dynamic_cast<CDbm*>(d);
  for (const std::string& pat : std::vector<std::string>{"b", "k", "", "bb", "BB", "zz"}) {
    for (auto mode : {"contain", "begin", "end", "containcase", "editbin", "upper", "upperinc", "lower", "lowerinc", "contain*", "regex", "edit", "none"}) {
      const std::string m = mode;
      if (m == "edit" && pat != "bb") continue;
      if (m == "regex" && pat != "b") continue;
      for (int cap : {0, 2}) {
        std::vector<std::string> got = {"junk"}, want;
        s = c ? c->Search(m, m == "contain*" ? pat + "\nzz" : pat, &got, cap) : SearchDBMModal(d, m, m == "contain*" ? pat + "\nzz" : pat, &got, cap);
        const std::string what = "search " + m + " \"" + pat + "\" with the capacity " + std::to_string(cap);
        const bool up = m.substr(0, 5) == "upper", lo = m.substr(0, 5) == "lower", ed = m.substr(0, 4) == "edit";
        if (m == "none") { if (s != Status::INVALID_ARGUMENT_ERROR) return what + ": " + ToString(s); continue; }
        if ((up || lo) && !ordered) { if (s == Status::SUCCESS) return what + " succeeds"; continue; }
        if (s != Status::SUCCESS) return what + ": " + ToString(s);
        for (auto& k : sorted) {
          bool in;
          if (m == "begin") in = k.substr(0, pat.size()) == pat;
          else if (m == "end") in = k.size() >= pat.size() && k.substr(k.size() - pat.size()) == pat;
          else if (m == "containcase") in = Low(k).find(Low(pat)) != k.npos;
          else if (up) in = m == "upper" ? k > pat : k >= pat;
          else if (lo) in = m == "lower" ? k < pat : k <= pat;
          else if (ed) in = true;
          else in = (m == "contain*" && pat.empty()) ? k.find("zz") != k.npos : k.find(pat) != k.npos;
          if (in) want.push_back(k);
        }
        if (lo) std::reverse(want.begin(), want.end());
        if (ed) {
          std::vector<int> a, b;
          bool ascii = true;
          for (auto& k : want) { a.push_back(Lev(k, pat)); for (unsigned char ch : k) if (ch >= 128) ascii = false; }
          std::sort(a.begin(), a.end());
          if (cap && (int)a.size() > cap) a.resize(cap);
          for (auto& k : got) b.push_back(Lev(k, pat));
          if ((m == "editbin" || ascii) && a != b) return what + " does not give the nearest keys";
          std::set<std::string> g(got.begin(), got.end());
          if (g.size() != got.size()) return what + " gives a key twice";
          for (auto& k : got) if (!std::binary_search(sorted.begin(), sorted.end(), k)) return what + " gives a key that is not there";
          continue;
        }
        const bool inorder = up || lo || (ordered && (m == "begin" || !merged));
        if (cap == 0 && !inorder) std::sort(got.begin(), got.end());
        if (cap == 0 || inorder) { if (cap && (int)want.size() > cap) want.resize(cap); if (got != want) return what + " gives " + std::to_string(got.size()) + " keys and not the " + std::to_string(want.size()) + " expected"; continue; }
        std::set<std::string> g(got.begin(), got.end());
        if (g.size() != got.size() || (int)got.size() != std::min<int>(cap, want.size())) return what + " gives " + std::to_string(got.size()) + " keys";
        for (auto& k : got) if (std::find(want.begin(), want.end(), k) == want.end()) return what + " gives a wrong key";
      }
    }
  }
  return "";
}

// What the facade tells about itself.
static std::string CheckAbout(DBM* d, const std::string& path, const std::string& cls, bool ordered) {
  if (!d->IsOpen() || !d->IsWritable() || !d->IsHealthy()) return "IsOpen, IsWritable or IsHealthy is false";
  if (d->IsOrdered() != ordered) return "IsOrdered is wrong";
  std::string p;
  if (d->GetFilePath(&p) != Status::SUCCESS || p != path) return "GetFilePath gives " + p;
  double t = -1;
  if (d->GetTimestamp(&t) != Status::SUCCESS || t < 1e9 || t > 1e11) return "GetTimestamp gives " + std::to_string(t);
  int64_t n = -1, size = -1;
  if (d->Count(&n) != Status::SUCCESS || d->GetFileSize(&size) != Status::SUCCESS || size < 0) return "Count or GetFileSize fails";
  bool tobe;
  if (d->ShouldBeRebuilt(&tobe) != Status::SUCCESS) return "ShouldBeRebuilt fails";
  Params ins;
  for (auto& e : d->Inspect()) ins[e.first] = e.second;
  if (ins["class"] != cls) return "Inspect tells the class " + ins["class"];
  if (ins["num_records"] != std::to_string(n)) return "Inspect tells " + ins["num_records"] + " records of " + std::to_string(n);
  return "";
}

enum Face { POLY, SHARD, CAPI, CASYNC };
struct Base { std::string name, ext, cls; bool ordered; Params params, rebuild, reopen; bool skip = false; };

static std::unique_ptr<DBM> Make(Face f, const Base& b, int shards, const Params& params) {
  Params p = params;
  p["dbm"] = b.cls;
  if (shards > 0) p["num_shards"] = std::to_string(shards);
  if (f == CAPI || f == CASYNC) { auto d = std::make_unique<CDbm>(Join(p), f == CASYNC); d->multi_append_ = shards > 1; return d; }
  if (f == SHARD) return std::make_unique<ShardDBM>();
  return std::make_unique<PolyDBM>();
}
static Status OpenIt(Face f, DBM* d, const Base& b, int shards, const std::string& path, int options, const Params& params, bool tell) {
  if (f == CAPI || f == CASYNC) return d->Open(path, true, options);
  Params p = params;
  if (tell) p["dbm"] = b.cls;
  if (shards > 0 && tell) p["num_shards"] = std::to_string(shards);
  return dynamic_cast<ParamDBM*>(d)->OpenAdvanced(path, true, options, p);
}
static Status RebuildIt(DBM* d, const Base& b) {
  if (auto* c = dynamic_cast<CDbm*>(d)) return c->RebuildWith(Join(b.rebuild));
  return dynamic_cast<ParamDBM*>(d)->RebuildAdvanced(b.rebuild);
}
static Status SyncIt(DBM* d, const Base& b, bool hard, DBM::FileProcessor* proc = nullptr) {
  Params p;
  if (b.skip) p["reducer"] = "ReduceToLast";
  if (auto* c = dynamic_cast<CDbm*>(d)) return c->SynchronizeWith(hard, proc, Join(p));
  return dynamic_cast<ParamDBM*>(d)->SynchronizeAdvanced(hard, proc, p);
}
struct Paths : DBM::FileProcessor { std::vector<std::string> got; void Process(const std::string& p) override { got.push_back(p); } };

static std::string CheckShards(const Base& b, const std::string& path, int shards, std::map<std::string, std::string>* all) {
  for (int i = 0; i < shards; i++) {
    PolyDBM p;
    Status s = p.OpenAdvanced(PartPath(path, i, shards), false, File::OPEN_NO_CREATE, {{"dbm", b.cls}});
    if (s != Status::SUCCESS) return "a shard cannot be opened: " + ToString(s);
    std::string err;
    s = ((DBM&)p).ProcessEach([&](std::string_view k, std::string_view v) -> std::string_view {
      if (v.data() == DBM::RecordProcessor::NOOP.data()) return DBM::RecordProcessor::NOOP;
      if ((int)tkrzw_secondary_hash(k.data(), k.size(), shards) != i) err = "a record of another shard";
      if (!all->emplace(k, v).second) err = "a record in two shards";
      return DBM::RecordProcessor::NOOP;
    }, false);
    if (!err.empty()) return err;
    if (s != Status::SUCCESS) return "reading a shard: " + ToString(s);
  }
  return "";
}

static SeqConfig Cfg(Face f, const Base& b, int shards) {
  SeqConfig c;
  static const char* names[] = {"poly", "shard", "c", "async"};
  c.name = std::string(names[f]) + (shards ? std::to_string(shards) : "") + " " + b.name;
  c.make = [=](Subject* s, const std::string& dir) {
    const std::string path = dir + "/casket." + b.ext;
    s->dbm = Make(f, b, shards, b.params);
    DBM* d = s->dbm.get();
    s->ordered = b.ordered;
    Status st = OpenIt(f, d, b, shards, path, File::OPEN_TRUNCATE, b.params, true);
    if (st != Status::SUCCESS) mc::Violation(c.name + " open", ToString(st));
    s->rebuild = [=] { return RebuildIt(d, b); };
    s->sync = [=](bool hard) {
      Paths p;
      Status st = SyncIt(d, b, hard, &p);
      const int n = std::max(1, shards);
      if (st == Status::SUCCESS && (int)p.got.size() != n) st.Set(Status::APPLICATION_ERROR, "the file processor is called " + std::to_string(p.got.size()) + " times");
      for (int i = 0; st == Status::SUCCESS && i < n; i++) if (p.got[i] != (shards ? PartPath(path, i, shards) : path)) st.Set(Status::APPLICATION_ERROR, "the file processor gets " + p.got[i]);
      return st;
    };
    s->reopen = [=] {
      std::map<std::string, std::string> before, after;
      Status st = d->ProcessEach([&](std::string_view k, std::string_view v) -> std::string_view { if (v.data() != DBM::RecordProcessor::NOOP.data()) before.emplace(k, v); return DBM::RecordProcessor::NOOP; }, false);
      st |= d->Close();
      if (st == Status::SUCCESS && shards) {
        const std::string e = CheckShards(b, path, shards, &after);
        if (!e.empty()) st.Set(Status::APPLICATION_ERROR, e);
        else if (before != after) st.Set(Status::APPLICATION_ERROR, "the shards do not have the records");
      }
      st |= OpenIt(f, d, b, shards, path, File::OPEN_DEFAULT, b.reopen, false);
      return st;
    };
    auto calls = std::make_shared<int>(0);
    s->validate = [=]() -> std::string {
      std::string e = CheckAbout(d, path, b.cls, b.ordered);
      if (e.empty() && (*calls)++ == 0) e = CheckSearch(d, b.ordered, shards > 1);
      return e;
    };
  };
  return c;
}
static itc::Cfg ICfg(Face f, const Base& b, int shards, itc::Kind kind, bool hop = false) {
  itc::Cfg c;
  static const char* names[] = {"poly", "shard", "c", "async"};
  c.name = std::string("iterator ") + names[f] + (shards ? std::to_string(shards) : "") + " " + b.name;
  c.kind = kind;
  c.hop = hop;
  c.fresh = true;
  c.shard = shards > 0;
  c.make = [=](LDb* db) {
    db->path = Scratch() + "/casket." + b.ext;
    db->dbm = Make(f, b, shards, b.params);
    DBM* d = db->dbm.get();
    Status s = OpenIt(f, d, b, shards, db->path, File::OPEN_TRUNCATE, b.params, true);
    if (s != Status::SUCCESS) mc::Fail("open: " + ToString(s));
    const std::string path = db->path;
    db->rebuild = [=] { return RebuildIt(d, b); };
    db->reopen = [=] { Status s = d->Close(); s |= OpenIt(f, d, b, shards, path, File::OPEN_DEFAULT, b.reopen, false); return s; };
    if (b.skip) db->sync = [=](bool hard) { return SyncIt(d, b, hard); };
  };
  return c;
}

// Tuning parameters given as text must arrive, and must be kept; those that do not exist must be refused.
static void Texts(SeqRunner* r) {
  struct T { std::string cls, params, want; };
  std::vector<T> ts = {
      {"HashDBM", "num_buckets=7,offset_width=3,align_pow=5,update_mode=UPDATE_APPENDING,record_crc_mode=RECORD_CRC_16", "num_buckets=7,offset_width=3,align_pow=5,update_mode=appending,record_crc_mode=crc-16"},
      {"HashDBM", "num_buckets=1K,offset_width=5,align_pow=0,update_mode=in_place,record_crc_mode=crc_32", "num_buckets=1009,offset_width=5,align_pow=0,update_mode=in-place,record_crc_mode=crc-32"},
      {"hash", "record_crc_mode=8,record_comp_mode=RECORD_COMP_NONE,fbp_capacity=10,min_read_size=64,cache_buckets=true", "record_crc_mode=crc-8,record_comp_mode=none"},
      {"TreeDBM", "num_buckets=7,offset_width=3,align_pow=2,update_mode=appending,record_crc_mode=none,max_page_size=77,max_branches=5,max_cached_pages=99,key_comparator=LexicalKeyComparator,page_update_mode=PAGE_UPDATE_WRITE", "max_page_size=77,max_branches=5,max_cached_pages=99,key_comparator=LexicalKeyComparator,hash_num_buckets=7,offset_width=3,align_pow=2,update_mode=appending,record_crc_mode=none"},
      {"SkipDBM", "offset_width=3,step_unit=5,max_level=9,sort_mem_size=12345,insert_in_order=true,max_cached_records=99,restore_mode=RESTORE_SYNC", "offset_width=3,step_unit=5,max_level=9,sort_mem_size=12345,insert_in_order=true"},
      {"TinyDBM", "num_buckets=17", "num_buckets=17"},
      {"CacheDBM", "cap_rec_num=123,cap_mem_size=45678", "cap_rec_num=123,cap_mem_size=45678"},
      {"StdHashDBM", "num_buckets=17", ""}, {"StdTreeDBM", "", ""}, {"BabyDBM", "", ""},
  };
  for (auto cmp : {"LexicalKeyComparator", "LexicalCaseKeyComparator", "DecimalKeyComparator", "HexadecimalKeyComparator", "RealNumberKeyComparator", "SignedBigEndianKeyComparator", "FloatBigEndianKeyComparator",
                   "PairLexicalKeyComparator", "PairLexicalCaseKeyComparator", "PairDecimalKeyComparator", "PairHexadecimalKeyComparator", "PairRealNumberKeyComparator", "PairSignedBigEndianKeyComparator", "PairFloatBigEndianKeyComparator"})
    ts.push_back({"TreeDBM", std::string("key_comparator=") + cmp, std::string("key_comparator=") + cmp});
  for (auto file : {"StdFile", "MemoryMapParallelFile", "MemoryMapAtomicFile", "PositionalParallelFile", "PositionalAtomicFile", "std", "mmap-para", "mmap-atom", "pos-para", "pos-atom"})
    for (auto cls : {"HashDBM", "TreeDBM", "SkipDBM", "TinyDBM", "BabyDBM", "CacheDBM", "StdHashDBM", "StdTreeDBM"})
      ts.push_back({cls, std::string("file=") + file, ""});
  for (auto& t : ts)
    for (int shards : {0, 1, 3}) {
      const std::string id = "text|" + t.cls + "|" + t.params + "|" + std::to_string(shards);
      if (!mc::args().only.empty() ? mc::args().only != id : r->index++ % mc::args().num_workers != mc::args().worker) continue;
      mc::SetContext(id);
      CleanDir(Scratch());
      auto params = StrSplitIntoMap(t.params, ",", "=");
      params["dbm"] = t.cls;
      if (shards) params["num_shards"] = std::to_string(shards);
      std::unique_ptr<ParamDBM> d;
      if (shards) d = std::make_unique<ShardDBM>(); else d = std::make_unique<PolyDBM>();
      const std::string path = Scratch() + "/any";
      auto open = [&](std::map<std::string, std::string> p, bool ok, const char* what) {
        Status s = d->OpenAdvanced(path, true, File::OPEN_DEFAULT, p);
        if ((s == Status::SUCCESS) != ok) { mc::Violation(id, std::string(what) + ": " + ToString(s)); return false; }
        if (!ok && d->IsOpen()) { mc::Violation(id, std::string(what) + ": is open after a failure"); return false; }
        return true;
      };
      for (auto bad : {"no_such_parameter", "ulog_no_such_parameter"}) { auto p = params; p[bad] = "1"; if (!open(p, false, bad)) return; }
      { auto p = params; p["dbm"] = "NoSuchDBM"; if (!open(p, false, "an unknown class")) return; }
      { auto p = params; p["file"] = "NoSuchFile"; if (!open(p, false, "an unknown file class")) return; }
      if (!open(params, true, "opening")) continue;
      for (int i = 1; i <= 5; i++) {
        const bool pair = t.params.find("=Pair") != std::string::npos;
        std::string k = t.params.find("SignedBigEndian") != std::string::npos ? IntToStrBigEndian(i) : t.params.find("FloatBigEndian") != std::string::npos ? FloatToStrBigEndian(i) : std::to_string(i);
        if (pair) k = SerializeStrPair(k, "x");
        if (d->Set(k, "v") != Status::SUCCESS) mc::Violation(id, "Set");
      }
      if (t.cls == "SkipDBM") d->Synchronize(false);
      if (d->CountSimple() != 5) mc::Violation(id, "Count is " + std::to_string(d->CountSimple()));
      for (int round = 0; round < 2; round++) {
        Params ins;
        for (auto& e : d->Inspect()) ins[shards && e.first.substr(0, 6) == "00000-" ? e.first.substr(6) : e.first] = e.second;
        for (auto& w : StrSplitIntoMap(t.want, ",", "=")) {
          std::string g = Low(ins[w.first]);
          if (g != Low(w.second) && !(round && !ins.count(w.first))) mc::Violation(id, w.first + " is " + g + " and not " + w.second + (round ? " after reopening" : ""));
        }
        if (round) break;
        auto again = params;
        Status s = d->Close();
        if (s != Status::SUCCESS) mc::Violation(id, "Close: " + ToString(s));
        if (!open(again, true, "opening again")) break;
        if (d->CountSimple() != 5) mc::Violation(id, "Count is " + std::to_string(d->CountSimple()) + " after reopening");
      }
      r->cases++;
    }
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const bool th = Thorough();
  SeqRunner r;
  r.Start();
  Base hash{"hash", "tkh", "HashDBM", false, {{"num_buckets", "3"}, {"offset_width", "3"}, {"align_pow", "3"}}, {{"num_buckets", "5"}}, {}};
  Base tree{"tree", "tkt", "TreeDBM", true, {{"num_buckets", "3"}, {"max_page_size", "1"}, {"max_branches", "2"}}, {{"max_page_size", "30"}}, {}};
  Base tiny{"tiny", "tkmt", "TinyDBM", false, {{"num_buckets", "2"}}, {{"num_buckets", "3"}}, {{"num_buckets", "2"}}};
  Base baby{"baby", "tkmb", "BabyDBM", true, {}, {}, {}};
  Base cache{"cache", "tkmc", "CacheDBM", false, {{"cap_rec_num", "10000"}}, {{"cap_rec_num", "20000"}}, {{"cap_rec_num", "10000"}}};
  Base stdhash{"stdhash", "tksh", "StdHashDBM", false, {}, {}, {}};
  Base stdtree{"stdtree", "tkst", "StdTreeDBM", true, {}, {}, {}};
  Base skip{"skip", "tks", "SkipDBM", true, {{"offset_width", "3"}, {"step_unit", "2"}, {"max_level", "3"}}, {{"step_unit", "4"}}, {}, true};
  Keys kt;
  kt.keys = {"b", std::string("\0b", 2), std::string(130, 'k'), "", "a", "B\xc3\xa9", "bb"};
  kt.values = {"", "1", std::string(21, 'v'), std::string(130, 'w'), std::string(2000, 'x')};
  SeqFamily vocab;
  vocab.name = "vocab";
  vocab.keys = kt;
  vocab.alphabet = Vocabulary();
  vocab.deep = 2;
  vocab.len = 1;
  SeqFamily pre = vocab;
  pre.name = "vocab after 6 records";
  pre.pre = {{SET, 5, 1}, {SET, 0, 3}, {SET, 6, 0}, {SET, 1, 2}, {SET, 4, 1}, {SET, 2, 1}, {SET, 3, 3}, {REMOVE, 0}, {SET, 0, 2}};
  std::vector<SeqConfig> cs;
  for (auto& b : {hash, tree, tiny, baby, cache, stdhash, stdtree}) {
    for (int n : {1, 2, 3}) cs.push_back(Cfg(SHARD, b, n));
    cs.push_back(Cfg(POLY, b, 0));
    cs.push_back(Cfg(CAPI, b, 0));
    cs.push_back(Cfg(CAPI, b, 2));
    cs.push_back(Cfg(CASYNC, b, 0));
    cs.push_back(Cfg(CASYNC, b, 3));
  }
  Texts(&r);
  for (auto& c : cs) { r.Run(c, vocab); r.Run(c, pre); }

  // Iterators.
  std::vector<itc::Cfg> is;
  for (int n : {2, 3, 1}) is.push_back(ICfg(SHARD, tree, n, itc::EAGER));
  for (int n : {2, 3}) { is.push_back(ICfg(SHARD, baby, n, itc::EAGER)); is.push_back(ICfg(SHARD, stdtree, n, itc::EAGER)); is.push_back(ICfg(SHARD, hash, n, itc::UNORD)); is.push_back(ICfg(SHARD, tiny, n, itc::UNORD)); }
  is.push_back(ICfg(SHARD, skip, 2, itc::SKIP));
  is.push_back(ICfg(POLY, tree, 0, itc::LAZY));
  is.push_back(ICfg(POLY, stdtree, 0, itc::EAGER));
  is.push_back(ICfg(POLY, skip, 0, itc::SKIP));
  is.push_back(ICfg(POLY, hash, 0, itc::UNORD));
  is.push_back(ICfg(POLY, stdhash, 0, itc::UNORD, true));
  is.push_back(ICfg(CAPI, baby, 0, itc::LAZY));
  is.push_back(ICfg(CAPI, tree, 2, itc::EAGER));
  is.push_back(ICfg(CAPI, cache, 0, itc::UNORD));
  typedef std::vector<itc::Op> Ops;
  const Ops pos = {{'f'}, {'l'}, {'j', "c"}, {'j', "e"}, {'L', "c"}, {'L', "e"}, {'L', "c", true}, {'U', "c"}, {'U', "d", true}, {'j', "z"}, {'L', "a"}, {'U', "z"}};
  const Ops mov = {{'n'}, {'p'}, {'g'}, {'t'}, {'s'}, {'r'}, {'w'}, {'x'}};
  const Ops few = {{'n'}, {'p'}, {'g'}, {'s'}, {'r'}};
  const Ops upd = {{'S', "e"}, {'S', "c"}, {'R', "b"}, {'R', "d"}, {'C'}, {'B'}, {'Y'}, {'O'}};
  Ops all = pos, act = mov;
  all.insert(all.end(), mov.begin(), mov.end());
  all.insert(all.end(), upd.begin(), upd.end());
  for (auto& o : Ops{{'S', "e"}, {'R', "c"}, {'R', "d"}, {'O'}, {'Y'}}) act.push_back(o);
  long steps = 0;
  auto gen = [&](const itc::Cfg& c, const std::string& init, const std::vector<const Ops*>& levels) {
    Ops ops;
    std::function<void()> rec = [&] {
      if (ops.size() < levels.size()) { for (auto& o : *levels[ops.size()]) { ops.push_back(o); rec(); ops.pop_back(); } return; }
      if (c.kind == itc::UNORD) {
        int ord = 0;
        for (auto& o : ops) ord += strchr("lpLU", o.kind) != nullptr;
        if (ord && ops.size() > 1) return;
      }
      for (int tail = 0; tail < 3; tail++) {
        std::string id = c.name + "/" + init + ":";
        for (auto& o : ops) id += itc::Name(o) + ".";
        id += "t" + std::to_string(tail);
        if (!mc::args().only.empty() ? mc::args().only != id : r.index++ % mc::args().num_workers != mc::args().worker) continue;
        if (r.expired) { mc::Stat("incomplete", 1); continue; }
        if (mc::args().only.empty() && (r.cases & 7) == 0 && SeqRunner::Wall() > r.deadline) { r.expired = true; mc::Note("time ran out in " + id); continue; }
        mc::SetContext(id);
        alarm(20);
        CleanDir(Scratch());
        {
          itc::Case k(id, c);
          std::vector<std::string> keys;
          for (char ch : init) keys.push_back(std::string(1, ch));
          k.Load(keys);
          for (auto& o : ops) k.Do(o);
          if (k.ok()) k.Tail(tail);
          if (!k.ok()) mc::Violation(id, k.error());
        }
        alarm(0);
        r.cases++;
        steps += ops.size();
      }
    };
    rec();
  };
  for (auto& c : is) { for (auto init : {"bcdf", ""}) { gen(c, init, {}); gen(c, init, {&all}); } gen(c, "bcdf", {&pos, &act}); }
  for (auto& c : is) gen(c, "bcdf", {&pos, &act, &few});
  for (auto& c : is) if (c.shard && c.kind != itc::UNORD) gen(c, "abcdef", {&pos, &few, &few, &few});
  // Pairs of operations.
  vocab.len = pre.len = 2;
  for (size_t i = 0; i < cs.size(); i++) if (th || i % 8 == 1 || i % 8 == 5) { r.Run(cs[i], pre); if (th) r.Run(cs[i], vocab); }
  if (th) for (auto& c : is) { gen(c, "", {&all, &all}); gen(c, "bcdf", {&pos, &act, &act, &act}); }
  mc::Stat("transitions", steps);
  r.Finish();
  mc::FinishReport();
}
