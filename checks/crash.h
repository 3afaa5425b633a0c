// Enumeration of crash points: a session of the real code is recorded as a sequence of file effects
// (system calls and single stores into shared mappings); every prefix of it, and every way to tear the
// effect in flight, gives an image of the directory, on which the real recovery code is run and judged.
#pragma once
#include <fcntl.h>
#include <algorithm>
#include <cstring>
#include <map>
#include <unordered_set>
#include "conc.h"

NOSAN inline uint64_t HashStr(const std::string& s, uint64_t h) {
  const char* p = s.data();
  size_t n = s.size();
  while (n >= 8) { uint64_t x; memcpy(&x, p, 8); h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; p += 8; n -= 8; }
  while (n--) { h = (h ^ (unsigned char)*p++) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
  return (h ^ s.size()) * 0xD6E8FEB86659FD93ull;
}
// The content of a file: zeros at the end are implied by the size.
struct Blob {
  std::shared_ptr<const std::string> d;
  int64_t size = 0;
  uint64_t hash = 0;
  Blob() : Blob(std::string()) {}
  explicit Blob(std::string s, int64_t n = -1) {
    size = n < 0 ? (int64_t)s.size() : n;
    if ((int64_t)s.size() > size) s.resize(size);
    s.resize(Trimmed(s.data(), s.size()));
    hash = HashStr(s, size);
    d = std::make_shared<const std::string>(std::move(s));
  }
  NOSAN static size_t Trimmed(const char* p, size_t e) {
    static const char zero[256] = {};
    while (e >= 256 && memcmp(p + e - 256, zero, 256) == 0) e -= 256;
    while (e > 0 && p[e - 1] == 0) e--;
    return e;
  }
  Blob Write(int64_t off, const char* p, int64_t n) const {
    std::string s = *d;
    if ((int64_t)s.size() < off + n) s.resize(off + n, 0);
    memcpy(&s[off], p, n);
    return Blob(std::move(s), std::max(size, off + n));
  }
  Blob Trunc(int64_t n) const { return Blob(*d, n); }
};
typedef std::map<std::string, Blob> Files;   // base name to content

inline void WriteFiles(const std::string& dir, const Files& fs) {
  CleanDir(dir);
  for (auto& f : fs) {
    const int fd = ::open((dir + "/" + f.first).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) continue;
    size_t o = 0;
    const std::string& s = *f.second.d;
    while (o < s.size()) {
      const ssize_t n = ::write(fd, s.data() + o, s.size() - o);
      if (n <= 0) break;
      o += n;
    }
    if (f.second.size > (int64_t)s.size() && ::ftruncate(fd, f.second.size) != 0) abort();
    ::close(fd);
  }
}
inline Files ReadFiles(const std::string& dir) {
  Files r;
  DIR* d = opendir(dir.c_str());
  std::vector<std::string> names;
  if (d) {
    while (auto* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
    closedir(d);
  }
  for (auto& n : names) {
    const int fd = ::open((dir + "/" + n).c_str(), O_RDONLY);
    if (fd < 0) continue;
    std::string s;
    char buf[65536];
    ssize_t k;
    while ((k = ::read(fd, buf, sizeof(buf))) > 0) s.append(buf, k);
    ::close(fd);
    r[n] = Blob(s);
  }
  return r;
}

// What the effects make of a directory.
class Disk {
 public:
  std::map<std::string, int> names;
  std::map<int, Blob> data;
  static std::string Base(const std::string& p) { return p.substr(p.rfind('/') + 1); }
  void Apply(const mc::FsEvent& e, int64_t cut = -1) {
    using E = mc::FsEvent;
    switch (e.kind) {
      case E::CREATE: names[Base(e.path)] = e.inode; data[e.inode] = Blob(); break;
      case E::WRITE: {
        auto& d = data[e.inode];
        const int64_t n = cut < 0 ? (int64_t)e.data.size() : cut;
        if (n <= 0) break;
        if (d.size < e.off + n && e.mapped) break;
        d = d.Write(e.off, e.data.data(), n);
        break;
      }
      case E::TRUNC: data[e.inode] = data[e.inode].Trunc(e.len); break;
      case E::RENAME: { auto it = names.find(Base(e.path)); if (it != names.end()) { const int i = it->second; names.erase(it); names[Base(e.path2)] = i; } break; }
      case E::UNLINK: names.erase(Base(e.path)); break;
      default: break;
    }
  }
  Files Get() const { Files f; for (auto& n : names) { auto it = data.find(n.second); f[n.first] = it == data.end() ? Blob() : it->second; } return f; }
};

inline uint64_t HashFiles(const Files& f, uint64_t seed) {
  uint64_t h = seed * 0x9E3779B97F4A7C15ull + 1;
  for (auto& x : f) { h = HashStr(x.first, h); h = (h ^ x.second.hash) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; }
  return h;
}

struct CrashPos { int begun = 0, ended = 0; bool torn = false, torn2 = false; };   // operations begun and ended before the crash; within an effect

struct CrashCase {
  std::string name;
  std::function<void(const std::string& dir)> setup;                    // before the session, not recorded
  std::function<std::shared_ptr<void>(const std::string& dir)> session; // recorded; what it returns is destroyed afterwards, unrecorded
  // Runs the recovery on the image in `dir`; an empty string if all is well. `begin_recovery` is called
  // when the part of it begins that may itself be interrupted, `end_recovery` when it has ended.
  std::function<std::string(const std::string& dir, const CrashPos& pos)> verify;
  bool torn = true;       // tear effects as well
  int nested = 0;         // crash during the recovery: of every n-th image (0: never)
  bool power = false;     // power failure: what was not synchronized may be lost in part
  int power_cap = 64;     // images per crash point
  std::function<void(const std::string& dir)> recover;                  // the interruptible part of the recovery
  std::function<std::string(const CrashPos& pos)> key;                  // what the judgement depends on: equal images are judged once
};

class CrashRunner {
 public:
  long images = 0, points = 0, torn = 0, nested = 0, index = 0, events_total = 0;
  double t0 = 0;
  static double Wall() { struct timespec ts; syscall(228, 1, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }
  CrashRunner() { t0 = Wall(); }
  bool TimeOut() { return Wall() - t0 > mc::args().time; }

  void Run(const CrashCase& c) {
    const std::string& only = mc::args().only;
    if (!only.empty() && only.substr(0, only.find('#')) != c.name) return;
    if (stop_) { mc::Stat("incomplete", 1); return; }
    const std::string rec = Scratch() + "/rec", img = Scratch() + "/img";
    ::mkdir(rec.c_str(), 0755);
    ::mkdir(img.c_str(), 0755);
    CleanDir(rec);
    mc::SetContext(c.name + "#session");
    alarm(60);
    if (c.setup) c.setup(rec);
    mc::FsStart(rec);
    auto keep = c.session(rec);
    auto ev = mc::FsStop();
    keep.reset();
    alarm(0);
    mc::Stat("traces", 1.0 / mc::args().num_workers);
    std::unordered_set<uint64_t> seen;
    long n = 0;
    Explore(c, ev, c.name, &seen, &n, 0, CrashPos());
    if (mc::args().worker == 0 && ++noted_ <= 6) mc::Note(c.name + ": " + std::to_string(ev.size()) + " file effects, " + std::to_string(n) + " images");
  }
  void Finish() {
    mc::Stat("states", images);
    mc::Stat("transitions", points);
    mc::Stat("torn_images", torn);
    mc::Stat("nested_images", nested);
    mc::FinishReport();
  }

 private:
  bool stop_ = false;
  int noted_ = 0;
  std::unordered_set<uint64_t> gseen_;

  bool Mine(const std::string& id) {
    const std::string& only = mc::args().only;
    if (!only.empty()) return id == only || only.rfind(id + "+", 0) == 0;
    return index++ % mc::args().num_workers == mc::args().worker;
  }
  static std::vector<int64_t> Cuts(const mc::FsEvent& e, bool th) {
    std::vector<int64_t> r;
    const int64_t n = e.data.size();
    if (e.kind != mc::FsEvent::WRITE || n < 2) return r;
    if (!e.mapped) {
      // A system call is interrupted between two pages only.
      for (int64_t p = (e.off / 4096 + 1) * 4096; p < e.off + n; p += 4096) r.push_back(p - e.off);
      return r;
    }
    // A plain store of a machine word is indivisible.
    if (n <= 8 && e.off / 8 == (e.off + n - 1) / 8) return r;
    std::set<int64_t> s;
    if (th || n <= 12) for (int64_t i = 1; i < std::min<int64_t>(n, 160); i++) s.insert(i);
    for (int64_t x : {(int64_t)1, (int64_t)2, (int64_t)5, n / 2, n - 1}) if (x > 0 && x < n) s.insert(x);
    for (int64_t p = (e.off / 16 + 1) * 16; p < e.off + n && p < e.off + 400; p += 16) s.insert(p - e.off);
    for (int64_t p = (e.off / 4096 + 1) * 4096; p < e.off + n; p += 4096) s.insert(p - e.off);
    return std::vector<int64_t>(s.begin(), s.end());
  }

  void Judge(const CrashCase& c, const Files& fs, const CrashPos& pos, const std::string& id, const std::string& at, bool nest) {
    const std::string img = Scratch() + "/img";
    if (!stop_ && mc::args().only.empty() && TimeOut()) { stop_ = true; mc::Note("time ran out in " + c.name); mc::Stat("incomplete", 1); }
    if (stop_) return;
    mc::SetContext(id);
    WriteFiles(img, fs);
    images++;
    alarm(40);
    const std::string err = c.verify(img, pos);
    alarm(0);
    if (!err.empty()) mc::Violation(c.name + ": " + err, "crash point: " + at + "\noperations begun " + std::to_string(pos.begun) + ", ended " + std::to_string(pos.ended));
    if (!nest) return;
    // A crash during the recovery from this image.
    WriteFiles(img, fs);
    mc::SetContext(id + "+recovery");
    mc::FsStart(img);
    alarm(40);
    c.recover(img);
    alarm(0);
    auto ev = mc::FsStop();
    std::unordered_set<uint64_t> seen;
    long n = 0;
    Explore(c, ev, id + "+r", &seen, &n, 1, pos);
    nested += n;
  }

  void Explore(const CrashCase& c, const std::vector<mc::FsEvent>& ev, const std::string& id0, std::unordered_set<uint64_t>* seen, long* count, int depth, CrashPos pos) {
    using E = mc::FsEvent;
    const bool th = Thorough();
    Disk d;
    bool started = false;
    if (c.power && depth == 0) { ExplorePower(c, ev, id0, seen, count); return; }
    auto emit = [&](const Files& fs, const std::string& suffix, const std::string& at, bool is_torn) {
      (depth == 0 ? pos.torn : pos.torn2) = is_torn;
      const uint64_t h = HashFiles(fs, c.key ? HashStr(c.key(pos), 7) : pos.begun * 1000 + pos.ended);
      if (mc::args().only.empty() && !(c.key && depth == 0 ? &gseen_ : seen)->insert(h).second) return;
      const std::string id = id0 + "#" + suffix;
      (*count)++;
      points++;
      if (depth == 0 ? !Mine(id) : !MineNested(id)) return;
      if (is_torn) torn++;
      const bool nest = depth == 0 && c.recover && c.nested > 0 && (*count % c.nested == 0 || !mc::args().only.empty());
      Judge(c, fs, pos, id, at, nest);
    };
    for (size_t i = 0; i < ev.size(); i++) {
      const E& e = ev[i];
      if (e.kind == E::MARK) {
        if (e.path == "start") { started = true; if (depth == 0) emit(d.Get(), "start", "before the session", false); }
        else if (depth == 0 && e.path[0] == 'b') { pos.begun++; emit(d.Get(), std::to_string(i), "before operation " + std::to_string(pos.begun), false); }
        else if (depth == 0 && e.path[0] == 'e') { pos.ended++; emit(d.Get(), std::to_string(i), "after operation " + std::to_string(pos.ended), false); }
        continue;
      }
      if (started && c.torn) {
        for (int64_t cut : Cuts(e, th)) {
          Disk t = d;
          t.Apply(e, cut);
          emit(t.Get(), std::to_string(i) + "/" + std::to_string(cut), "within effect " + std::to_string(i) + " (" + e.ToString() + ") after " + std::to_string(cut) + " bytes", true);
        }
      }
      d.Apply(e);
      if (started && (e.kind == E::WRITE || e.kind == E::TRUNC || e.kind == E::CREATE || e.kind == E::RENAME || e.kind == E::UNLINK)) {
        emit(d.Get(), std::to_string(i), "after effect " + std::to_string(i) + " (" + e.ToString() + ")", false);
      }
    }
  }
  bool MineNested(const std::string& id) {
    const std::string& only = mc::args().only;
    return only.empty() || only == id || only.find("+recovery") != std::string::npos;
  }

  // Power failure: pages, sizes and directory entries that were not synchronized may be lost in part.
  struct PFile {
    std::string cur, dur;                                   // content now and content that is durable, without trailing zeros
    int64_t csize = 0, dsize = 0;
    std::map<int64_t, std::vector<std::string>> vers;       // versions of pages since the last synchronization
  };
  static constexpr int64_t PG = 4096;
  static std::string Page(const std::string& s, int64_t p) { std::string r = (int64_t)s.size() > p * PG ? s.substr(p * PG, PG) : ""; r.resize(PG, 0); return r; }
  void ExplorePower(const CrashCase& c, const std::vector<mc::FsEvent>& ev, const std::string& id0, std::unordered_set<uint64_t>* seen, long* count) {
    using E = mc::FsEvent;
    std::map<int, PFile> fs;
    std::map<std::string, int> names, dnames;               // directory now, and what is durable of it
    std::vector<std::map<std::string, int>> dirs;           // every state of the directory since the last synchronization
    CrashPos pos;
    bool started = false;
    auto emit = [&](size_t i, const std::string& at) {
      // All combinations of: directory state, per file the size (durable or now), per page one of its versions.
      std::vector<std::map<std::string, int>> ds = dirs;
      ds.insert(ds.begin(), dnames);
      int combo = 0;
      const uint64_t keyed = c.key ? HashStr(c.key(pos), 7) : pos.begun * 1000 + pos.ended;
      for (size_t di = 0; di < ds.size(); di++) {
        std::vector<int> inos;
        for (auto& n : ds[di]) inos.push_back(n.second);
        // One digit per page and per size.
        struct Dig { int ino; int64_t page; int n; };
        std::vector<Dig> digs;
        for (int x : inos) {
          auto& f = fs[x];
          if (f.dsize != f.csize) digs.push_back({x, -1, 2});
          for (auto& v : f.vers) if (!v.second.empty()) digs.push_back({x, v.first, (int)v.second.size() + 1});
        }
        auto image = [&](const std::vector<int>& val) {
          Files r;
          for (auto& n : ds[di]) {
            auto& f = fs[n.second];
            int64_t size = f.csize;
            for (size_t k = 0; k < digs.size(); k++) if (digs[k].ino == n.second && digs[k].page < 0) size = val[k] ? f.csize : f.dsize;
            std::string s = f.cur;
            for (size_t k = 0; k < digs.size(); k++) {
              if (digs[k].ino != n.second || digs[k].page < 0) continue;
              auto& vs = f.vers[digs[k].page];
              const std::string pg = val[k] == 0 ? Page(f.dur, digs[k].page) : vs[val[k] - 1];
              if ((int64_t)s.size() < (digs[k].page + 1) * PG) s.resize((digs[k].page + 1) * PG, 0);
              memcpy(&s[digs[k].page * PG], pg.data(), PG);
            }
            r[n.first] = Blob(std::move(s), size);
          }
          return r;
        };
        auto one = [&](const std::vector<int>& val) {
          const Files f = image(val);
          const uint64_t h = HashFiles(f, keyed);
          if (mc::args().only.empty() && !(c.key ? &gseen_ : seen)->insert(h).second) return;
          std::string v;
          for (int x : val) v += std::to_string(x) + ".";
          const std::string id = id0 + "#" + std::to_string(i) + ":" + std::to_string(di) + ":" + v;
          (*count)++;
          points++;
          if (!Mine(id)) return;
          std::string what = at + "; directory state " + std::to_string(di) + " of " + std::to_string(ds.size());
          for (size_t k = 0; k < digs.size(); k++) what += "; ino " + std::to_string(digs[k].ino) + (digs[k].page < 0 ? " size" : " page " + std::to_string(digs[k].page)) + " version " + std::to_string(val[k]) + "/" + std::to_string(digs[k].n - 1);
          Judge(c, f, pos, id, what, false);
        };
        double total = 1;
        for (auto& g : digs) total *= g.n;
        std::vector<int> val(digs.size(), 0);
        if (total <= c.power_cap) {
          while (true) {
            one(val);
            size_t k = 0;
            while (k < val.size() && ++val[k] == digs[k].n) val[k++] = 0;
            if (k == val.size()) break;
          }
        } else {
          combo++;
          // Nothing or everything, with up to two exceptions.
          for (int base = 0; base < 2; base++) {
            for (size_t k = 0; k < val.size(); k++) val[k] = base ? digs[k].n - 1 : 0;
            one(val);
            for (size_t a = 0; a < val.size(); a++) {
              const int oa = val[a];
              for (int x = 0; x < digs[a].n; x++) {
                val[a] = x;
                one(val);
                if (x != 0 && x != digs[a].n - 1) continue;
                for (size_t b = a + 1; b < val.size(); b++) {
                  const int ob = val[b];
                  for (int y : {0, digs[b].n - 1}) { val[b] = y; one(val); }
                  val[b] = ob;
                }
              }
              val[a] = oa;
            }
          }
        }
      }
    };
    for (size_t i = 0; i < ev.size(); i++) {
      const E& e = ev[i];
      auto changed = [&](int ino, const std::string& before) {
        auto& f = fs[ino];
        const int64_t np = (std::max(before.size(), f.cur.size()) + PG - 1) / PG;
        for (int64_t p = 0; p < np; p++) {
          const std::string a = Page(before, p), b = Page(f.cur, p);
          if (a == b) continue;
          auto& v = f.vers[p];
          // Versions within one operation are merged: only the first and the latest are kept beyond eight.
          if (v.size() >= 8) v[7] = b; else v.push_back(b);
        }
      };
      switch (e.kind) {
        case E::MARK:
          if (e.path == "start") {
            started = true;
            for (auto& f : fs) { f.second.dur = f.second.cur; f.second.dsize = f.second.csize; f.second.vers.clear(); }   // what was there before is durable
            emit(i, "before the session");
          }
          else if (e.path[0] == 'b') { pos.begun++; }
          else if (e.path[0] == 'e') { pos.ended++; emit(i, "after operation " + std::to_string(pos.ended)); }
          continue;
        case E::CREATE: names[Disk::Base(e.path)] = e.inode; fs[e.inode] = PFile(); dirs.push_back(names); break;
        case E::RENAME: { auto it = names.find(Disk::Base(e.path)); if (it != names.end()) { const int x = it->second; names.erase(it); names[Disk::Base(e.path2)] = x; } dirs.push_back(names); break; }
        case E::UNLINK: names.erase(Disk::Base(e.path)); dirs.push_back(names); break;
        case E::WRITE: {
          auto& f = fs[e.inode];
          const std::string before = f.cur;
          const int64_t end = e.off + e.data.size();
          if (f.csize < end) { if (e.mapped) break; f.csize = end; }
          if ((int64_t)f.cur.size() < end) f.cur.resize(end, 0);
          memcpy(&f.cur[e.off], e.data.data(), e.data.size());
          f.cur.resize(Blob::Trimmed(f.cur.data(), f.cur.size()));
          changed(e.inode, before);
          break;
        }
        case E::TRUNC: { auto& f = fs[e.inode]; const std::string before = f.cur; f.csize = e.len; if ((int64_t)f.cur.size() > e.len) { f.cur.resize(e.len); changed(e.inode, before); } break; }
        case E::FSYNC: {
          auto& f = fs[e.inode];
          if (e.len < 0) {
            f.dur = f.cur;
            f.dsize = f.csize;
            f.vers.clear();
          } else {
            // A part of the file: its pages, and the size, are durable.
            f.dsize = f.csize;
            for (int64_t p = e.off / PG; p * PG < e.off + e.len && p * PG < f.csize; p++) {
              const std::string pg = Page(f.cur, p);
              if ((int64_t)f.dur.size() < (p + 1) * PG) f.dur.resize((p + 1) * PG, 0);
              memcpy(&f.dur[p * PG], pg.data(), PG);
              f.vers.erase(p);
            }
            f.dur.resize(Blob::Trimmed(f.dur.data(), f.dur.size()));
          }
          dnames = names;      // the journal is committed up to here
          dirs.clear();
          break;
        }
        case E::FSYNCDIR: dnames = names; dirs.clear(); break;
        default: break;
      }
      if (!started) { dnames = names; dirs.clear(); continue; }
      if (pos.begun > pos.ended) emit(i, "after effect " + std::to_string(i) + " (" + e.ToString() + ")");
    }
  }
};
