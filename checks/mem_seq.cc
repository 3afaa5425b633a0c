// On-memory databases against a reference map, and CacheDBM against a reference LRU list.
#include "seqops.h"
#include <list>
#include "tkrzw_dbm_baby.h"
#include "tkrzw_dbm_cache.h"
#include "tkrzw_dbm_std.h"
#include "tkrzw_dbm_tiny.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_std.h"
#include "tkrzw_hash_util.h"
using namespace tkrzw;

static std::unique_ptr<File> MakeFile(int cls) {
  if (cls == 1) return std::make_unique<PositionalParallelFile>();
  if (cls == 2) return std::make_unique<StdFile>();
  if (cls == 3) return std::make_unique<MemoryMapAtomicFile>();
  return std::make_unique<MemoryMapParallelFile>();
}
typedef std::function<DBM*()> Maker;

static SeqConfig Cfg(const std::string& name, bool ordered, Maker mk, bool opened = true, KeyComparator cmp = nullptr, std::function<Status(DBM*)> rebuild = nullptr) {
  SeqConfig c;
  c.name = name;
  if (cmp) c.less = [cmp](const std::string& a, const std::string& b) { return cmp(a, b) < 0; };
  c.make = [=](Subject* s, const std::string& dir) {
    const std::string path = dir + "/casket.flat";
    DBM* d = mk();
    s->dbm.reset(d);
    s->ordered = ordered;
    if (rebuild) s->rebuild = [=] { return rebuild(d); };
    if (!opened) { s->reopen = [] { return Status(Status::SUCCESS); }; return; }
    Status st = d->Open(path, true, File::OPEN_TRUNCATE);
    if (st != Status::SUCCESS) mc::Violation(name + " open", ToString(st));
    s->reopen = [=] {
      Status st = d->Close();
      if (st == Status::SUCCESS && d->CountSimple() != 0) st.Set(Status::BROKEN_DATA_ERROR, "records after closing");
      st |= d->Open(path, true, File::OPEN_DEFAULT);
      return st;
    };
  };
  return c;
}

// ---- CacheDBM: which keys share a slot is learned from the database itself.
struct Lru {
  std::list<std::pair<std::string, std::string>> l;   // the least recently used first
  std::list<std::pair<std::string, std::string>>::iterator Find(const std::string& k) {
    auto it = l.begin();
    while (it != l.end() && it->first != k) ++it;
    return it;
  }
};
static bool SameSlot(const std::string& a, const std::string& b) {
  CacheDBM d(1);
  d.Set(a, "x");
  d.Set(b, "y");
  return d.CountSimple() == 1;
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  SeqRunner r;
  r.Start();
  const bool th = Thorough();
  auto tiny = [](int n, int cls) { return [=]() -> DBM* { return new TinyDBM(MakeFile(cls), n); }; };
  auto baby = [](int cls, KeyComparator cmp = LexicalKeyComparator) { return [=]() -> DBM* { return new BabyDBM(MakeFile(cls), cmp); }; };
  auto tr = [](int n) { return [=](DBM* d) { return dynamic_cast<TinyDBM*>(d)->RebuildAdvanced(n); }; };
  auto cache = [](int64_t n, int cls) { return [=]() -> DBM* { return new CacheDBM(MakeFile(cls), n, -1); }; };
  std::vector<SeqConfig> main_cfgs = {
    Cfg("tiny 1 bucket", false, tiny(1, 0), true, nullptr, tr(3)), Cfg("tiny 3 buckets pos", false, tiny(3, 1), true, nullptr, tr(1)),
    Cfg("baby", true, baby(0)), Cfg("std hash", false, [] { return new StdHashDBM(MakeFile(0), 1); }), Cfg("std tree", true, [] { return new StdTreeDBM(MakeFile(0)); }),
    Cfg("cache", false, cache(10000, 0), true, nullptr, [](DBM* d) { return dynamic_cast<CacheDBM*>(d)->RebuildAdvanced(20000); }),
    Cfg("cache small", false, cache(640, 1)),
  };
  std::vector<SeqConfig> more = {
    Cfg("tiny not opened", false, tiny(2, 0), false), Cfg("baby not opened", true, baby(0), false), Cfg("cache not opened", false, cache(1000, 0), false),
    Cfg("std hash not opened", false, [] { return new StdHashDBM(); }, false), Cfg("std tree not opened", true, [] { return new StdTreeDBM(); }, false),
    Cfg("baby stdio", true, baby(2)), Cfg("baby atomic", true, baby(3)), Cfg("std tree pos", true, [] { return new StdTreeDBM(MakeFile(1)); }),
    Cfg("std hash stdio", false, [] { return new StdHashDBM(MakeFile(2), 100); }), Cfg("tiny 1000 buckets", false, tiny(1000, 0), true, nullptr, tr(2)),
    Cfg("baby case", true, baby(0, LexicalCaseKeyComparator), true, LexicalCaseKeyComparator),
  };
  Keys kt;
  kt.keys = {"b", std::string("\0b", 2), std::string(130, 'k'), "", "a", std::string(300, 'c'), "bb"};
  kt.values = {"", "1", std::string(21, 'v'), std::string(130, 'w'), std::string(5000, 'x')};
  SeqFamily vocab;
  vocab.name = "vocab";
  vocab.keys = kt;
  vocab.alphabet = Vocabulary();
  vocab.len = 2;
  vocab.deep = 2;
  SeqFamily vocab_pre = vocab;
  vocab_pre.name = "vocab after 6 records";
  vocab_pre.pre = {{SET, 5, 1}, {SET, 0, 3}, {SET, 6, 0}, {SET, 1, 2}, {SET, 4, 1}, {SET, 2, 1}, {SET, 3, 3}, {REMOVE, 0}, {SET, 0, 2}};
  for (auto& c : main_cfgs) { r.Run(c, vocab); r.Run(c, vocab_pre); }
  {
    SeqFamily a = vocab, b = vocab_pre;
    if (!th) a.len = b.len = 1;
    for (auto& c : more) { r.Run(c, a); r.Run(c, b); }
  }
  // Values that change their size class; keys and values at the widths of their size headers.
  {
    SeqFamily f;
    f.name = "sizes";
    f.keys.keys = {"k", std::string(127, 'p'), std::string(128, 'q'), "m"};
    f.keys.values = {"", "1", std::string(126, 'a'), std::string(127, 'b'), std::string(128, 'c'), std::string(129, 'd'), std::string(16383, 'e'), std::string(16384, 'f'), std::string(260, 'g')};
    for (int k : {0, 1, 2}) for (int v = 0; v < 9; v++) f.alphabet.push_back({SET, k, v});
    for (int k : {0, 1, 2}) { f.alphabet.push_back({REMOVE, k}); f.alphabet.push_back({APPEND, k, 1}); f.alphabet.push_back({APPEND_D, k, 4}); }
    f.pre = {{SET, 3, 1}};
    f.len = 2;
    for (auto& c : main_cfgs) r.Run(c, f);
    SeqFamily g = f;
    g.name = "sizes of one key";
    g.alphabet.clear();
    for (int v : {0, 1, 3, 4, 7}) g.alphabet.push_back({SET, 0, v});
    for (auto o : std::vector<Op>{{REMOVE, 0}, {APPEND, 0, 1}, {APPEND, 0, 4}, {SET, 3, 4}, {REMOVE, 3}, {INCR, 0, 3}}) g.alphabet.push_back(o);
    g.len = th ? 5 : 4;
    for (auto& c : main_cfgs) r.Run(c, g);
  }
  // Chains of one bucket, and every insertion and removal order.
  {
    SeqFamily f;
    f.name = "chains";
    f.keys.keys = {"a", "b", "c", "d", "e", "f"};
    f.keys.values = {"1", "22", "333", std::string(40, 'z')};
    for (int k = 0; k < 4; k++) { f.alphabet.push_back({SET, k, 0}); f.alphabet.push_back({SET, k, 3}); f.alphabet.push_back({REMOVE, k}); }
    f.alphabet.push_back({REBUILD});
    f.alphabet.push_back({POPFIRST});
    f.alphabet.push_back({REOPEN});
    f.len = th ? 4 : 3;
    f.pre = {{SET, 0, 1}, {SET, 1, 1}, {SET, 2, 1}};
    for (auto& c : main_cfgs) r.Run(c, f);
  }
  // BabyDBM: trees of many leaves and of several levels. Runs of records go away, or come, at every place.
  {
    auto grow = [&](int n, int mul, const char* nm) {
      SeqFamily f;
      f.name = nm;
      f.deep = 1;
      for (int i = 0; i < n; i++) { char b[16]; sprintf(b, "%05d", i); f.keys.keys.push_back(b); }
      f.keys.values = {"1", "", "22", std::string(60, 'z')};
      for (int i = 0; i < n; i++) f.pre.push_back({SET, (int)((long)i * mul % n), i % 3});
      return f;
    };
    for (auto& pr : std::vector<std::pair<int, const char*>>{{1, "ascending"}, {1399, "descending"}, {797, "shuffled"}}) {
      SeqFamily f = grow(1400, pr.first, pr.second);
      const int step = th ? 64 : 200;
      r.RunGen(main_cfgs[2], f, [&](const std::function<void(const std::vector<Op>&)>& e) {
        for (int a = 0; a < 1400; a += step)
          for (int b = a + 40; b <= 1400; b += step)
            for (int mode = 0; mode < (th ? 4 : 3); mode++) {
              std::vector<Op> s;
              for (int i = a; i < b; i++) s.push_back({mode == 3 ? IT_REMOVE : REMOVE, mode == 1 ? a + b - 1 - i : i});
              if (mode == 2) for (int i = b - 1; i >= a; i--) s.push_back({SET, i, 3});
              if (mode == 0) { s.push_back({EACH_REMOVE}); s.push_back({SET, a, 1}); s.push_back({REMOVE, b % 1400}); }
              if (mode == 1) { s.push_back({REKEY, (b + 1) % 1400, 0, a}); s.push_back({MULTI_SWAP, 0, 0, 1399}); s.push_back({POPFIRST}); s.push_back({POPFIRST}); }
              e(s);
            }
        // Every second leaf first, then the others.
        for (int w : {100, 128, 129, 256}) {
          std::vector<Op> s;
          for (int ph = 0; ph < 2; ph++) for (int i = 0; i < 1400; i++) if ((i / w) % 2 == ph) s.push_back({REMOVE, i});
          for (int i = 0; i < 1400; i += 3) s.push_back({SET, i, 1});
          e(s);
          // Through ProcessEach and CompareExchangeMulti, which do not reorganize the tree by themselves.
          s.clear();
          for (int i = 0; i < w; i++) s.push_back({SET, i, 0});
          s.push_back({EACH_REMOVE});
          s.push_back({EACH_SET, 0, 3});
          for (int i = 0; i < 1400; i += 2) s.push_back({SET, i, 0});
          s.push_back({EACH_REMOVE});
          s.push_back({REMOVE, 1});
          e(s);
        }
      });
    }
    // Three levels.
    SeqFamily f = grow(40000, 1, "three levels");
    f.reopen_after = false;
    r.RunGen(main_cfgs[2], f, [&](const std::function<void(const std::vector<Op>&)>& e) {
      e({});
      for (int a : {0, 15000, 33000})
        for (int b : {a + 6000, 40000}) {
          for (int dir = 0; dir < 2; dir++) {
            if (b - a > 20000 && dir && !th) continue;
            std::vector<Op> s;
            for (int i = a; i < b; i++) s.push_back({REMOVE, dir ? a + b - 1 - i : i});
            e(s);
          }
        }
      std::vector<Op> s;
      for (int i = 39999; i >= 0; i--) s.push_back({REMOVE, i});
      e(s);
    });
  }
  // CacheDBM with a capacity: exact LRU order inside a slot, a bound over all.
  {
    std::vector<std::string> group, other;
    for (int i = 0; group.size() < 6 || other.size() < 2; i++) {
      std::string k = "k" + std::to_string(i);
      if (group.empty() || SameSlot(group[0], k)) { if (group.size() < 6) group.push_back(k); } else if (other.size() < 2) other.push_back(k);
      if (i > 100000) mc::Violation("cache slots", "no keys share the capacity");
    }
    enum { C_SET, C_GET, C_REM, C_APP, C_TOUCH, C_REOPEN, C_SHRINK, C_OTHER, C_REBUILD, C_ITER };
    struct COp { int kind, k; };
    std::vector<COp> al;
    for (int k = 0; k < 5; k++) { al.push_back({C_SET, k}); if (k < 4) al.push_back({C_GET, k}); if (k < 3) al.push_back({C_REM, k}); if (k < 2) al.push_back({C_APP, k}); }
    al.push_back({C_TOUCH, 0}); al.push_back({C_REOPEN, 0}); al.push_back({C_SHRINK, 0}); al.push_back({C_OTHER, 0}); al.push_back({C_REBUILD, 0}); al.push_back({C_ITER, 0});
    const int n = al.size(), len = th ? 5 : 4;
    for (int cap : {1, 2, 3}) {
      for (int L = 0; L <= len - (cap == 2 ? 0 : 1); L++) {
        std::vector<int> ix(L, 0);
        while (!r.expired) {
          if (r.index++ % mc::args().num_workers == mc::args().worker || !mc::args().only.empty()) {
            if ((r.cases & 63) == 0 && SeqRunner::Wall() > r.deadline) { r.expired = true; mc::Note("time ran out at cache"); break; }
            std::string id = "cache capacity " + std::to_string(cap) + "|";
            for (int i : ix) id += std::to_string(al[i].kind) + "(" + std::to_string(al[i].k) + ") ";
            if (mc::args().only.empty() || mc::args().only == id) {
              mc::SetContext(id);
              CleanDir(Scratch());
              const std::string path = Scratch() + "/cache";
              CacheDBM d((cap - 1) * 32);
              // A capacity below one slot's share means one record each.
              if (cap == 1) d.RebuildAdvanced(1);
              if (d.Open(path, true, File::OPEN_TRUNCATE) != Status::SUCCESS) mc::Violation(id, "Open");
              int lim = cap;
              Lru m;
              std::set<std::string> oth;
              std::string err;
              auto use = [&](const std::string& k, const std::string& v) {
                auto it = m.Find(k);
                if (it != m.l.end()) m.l.erase(it);
                m.l.emplace_back(k, v);
                if ((int)m.l.size() > lim) m.l.pop_front();
              };
              for (int i : ix) {
                const COp& o = al[i];
                const std::string& k = group[o.k];
                auto it = m.Find(k);
                const bool has = it != m.l.end();
                const std::string cur = has ? it->second : "";
                Status st;
                mc::Stat("transitions", 1);
                switch (o.kind) {
                  case C_SET: { const std::string v = "v" + std::string(o.k * 90, 's'); st = d.Set(k, v); use(k, v); break; }
                  case C_GET: { std::string v; st = d.Get(k, &v); if (has ? st != Status::SUCCESS || v != cur : st != Status::NOT_FOUND_ERROR) err = "Get(" + k + "): " + ToString(st) + " " + v; st = Status(Status::SUCCESS); if (has) use(k, cur); break; }
                  case C_REM: { st = d.Remove(k); if (st != (has ? Status::SUCCESS : Status::NOT_FOUND_ERROR)) err = "Remove: " + ToString(st); st = Status(Status::SUCCESS); if (has) m.l.erase(it); break; }
                  case C_APP: { st = d.Append(k, std::string(130, 'a')); use(k, cur + std::string(130, 'a')); break; }
                  case C_TOUCH: { st = ((DBM&)d).Process(k, [](std::string_view, std::string_view) { return DBM::RecordProcessor::NOOP; }, false); if (has) use(k, cur); break; }
                  case C_REOPEN: st = d.Close(); st |= d.Open(path, true); break;
                  case C_SHRINK: st = d.RebuildAdvanced(1); lim = 1; while ((int)m.l.size() > lim) m.l.pop_front(); break;
                  case C_OTHER: st = d.Set(other[0], "o"); oth.insert(other[0]); break;
                  case C_REBUILD: st = d.Rebuild(); break;
                  case C_ITER: {
                    // Reading through ProcessEach changes nothing.
                    size_t cnt = 0;
                    st = ((DBM&)d).ProcessEach([&](std::string_view kk, std::string_view v) { if (v.data() != DBM::RecordProcessor::NOOP.data()) cnt++; return DBM::RecordProcessor::NOOP; }, false);
                    if (cnt != m.l.size() + oth.size()) err = "ProcessEach visits " + std::to_string(cnt);
                    break;
                  }
                }
                if (err.empty() && st != Status::SUCCESS) err = ToString(st);
                if (err.empty() && d.CountSimple() != (int64_t)(m.l.size() + oth.size())) err = "Count is " + std::to_string(d.CountSimple()) + " instead of " + std::to_string(m.l.size() + oth.size());
                if (!err.empty()) break;
              }
              if (err.empty()) {
                int64_t eff = oth.size() * (other[0].size() + 1);
                for (auto& x : m.l) eff += x.first.size() + x.second.size();
                if (d.GetEffectiveDataSize() != eff) err = "the effective data size is " + std::to_string(d.GetEffectiveDataSize()) + " instead of " + std::to_string(eff);
              }
              if (err.empty()) for (auto& k : group) {
                auto it = m.Find(k);
                std::string v;
                Status st = d.Get(k, &v);
                if (it == m.l.end() ? st != Status::NOT_FOUND_ERROR : st != Status::SUCCESS || v != it->second) { err = "finally Get(" + k + "): " + ToString(st) + " " + Brief(v); break; }
              }
              if (!err.empty()) mc::Violation(id, err);
              r.cases++;
            }
          }
          int p = L - 1;
          while (p >= 0 && ++ix[p] == n) ix[p--] = 0;
          if (p < 0) break;
        }
      }
    }
    // Many keys: the bound on the number of records, and the memory bound.
    if (mc::args().worker == 0 || !mc::args().only.empty()) {
      for (int cap : {1, 31, 32, 33, 64, 100, 1000}) {
        CacheDBM d(cap);
        std::map<std::string, std::string> m;
        for (int i = 0; i < 4000; i++) {
          const std::string k = "key" + std::to_string(i * 7 % 3000), v = std::string(i % 50, 'a' + i % 26);
          d.Set(k, v);
          m[k] = v;
          std::string got;
          if (d.Get(k, &got) != Status::SUCCESS || got != v) mc::Violation("cache bound " + std::to_string(cap), "the record just set is not there");
          if (d.CountSimple() > cap + 32) mc::Violation("cache bound " + std::to_string(cap), std::to_string(d.CountSimple()) + " records");
          if (i == 3000) d.Rebuild();
        }
        if (d.CountSimple() < cap / 2) mc::Violation("cache bound " + std::to_string(cap), "only " + std::to_string(d.CountSimple()) + " records are kept");
        ((DBM&)d).ProcessEach([&](std::string_view k, std::string_view v) {
          if (v.data() == DBM::RecordProcessor::NOOP.data()) return DBM::RecordProcessor::NOOP;
          if (m[std::string(k)] != v) mc::Violation("cache bound " + std::to_string(cap), "a stale value");
          return DBM::RecordProcessor::NOOP;
        }, false);
        r.cases++;
      }
      for (int64_t mem : {200000, 400000, 2000000}) {
        CacheDBM d(100000 / 100, mem);
        for (int i = 0; i < 3000; i++) {
          d.Set("key" + std::to_string(i), std::string(300, 'x'));
          // The estimate includes the buckets; one record of each slot may be above it.
          if (d.GetMemoryUsage() > mem + 32 * 400) mc::Violation("cache memory " + std::to_string(mem), "uses " + std::to_string(d.GetMemoryUsage()));
        }
        if (d.CountSimple() < 32) mc::Violation("cache memory " + std::to_string(mem), "keeps only " + std::to_string(d.CountSimple()));
        r.cases++;
      }
    }
  }
  r.Finish();
  mc::FinishReport();
}
