// Every sequence of message queue operations, against a list of messages in a list of files.
#include <algorithm>
#include <cstring>
#include "conc.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_util.h"
#include "tkrzw_message_queue.h"
#include "tkrzw_dbm_ulog.h"
using namespace tkrzw;

struct Msg { int64_t ts; std::string m; };
struct MFile { int64_t id; std::vector<Msg> recs; int64_t size = 32, meta_ts = 0, meta_size = 32; };
struct Op { char kind; int a = 0, b = 0; };
static std::string Text(int v, int serial) {
  switch (v) {
    case 0: return "";
    case 1: return "m" + std::to_string(serial);
    case 2: return std::string(40, 'a' + serial % 26);
    case 3: return std::string(9000, 'A' + serial % 26) + "z";
    default: return std::string("\x00\xff\x00\xff", 4) + std::to_string(serial);
  }
}
static std::string Name(const Op& o) { return std::string(1, o.kind) + (o.kind == 'w' ? std::to_string(o.a) + ":" + std::to_string(o.b) : strchr("unDZ", o.kind) ? std::to_string(o.a) : ""); }

struct Cfg { std::string name; int64_t max; int options; bool stray; };

struct MReader {
  std::unique_ptr<MessageQueue::Reader> r;
  int64_t min;
  bool started = false, dead = false, canceled = false;
  int64_t file = 0;
  size_t idx = 0;
};

class Case {
 public:
  Case(const std::string& id, const std::string& dir, const Cfg& c) : id_(id), dir_(dir), cfg_(c), prefix_(dir + "/q") {}
  void Bad(const std::string& w) { mc::Violation(id_, trace_ + ": " + w); failed_ = true; }
  void Run(const std::vector<Op>& ops) {
    CleanDir(dir_);
    if (cfg_.stray) for (auto* n : {"q.0000000007.bak", "q.00000000019", "qq.0000000003", "q.000000001", "q", "q.x000000002"}) WriteFile(dir_ + "/" + n, "stray");
    Open();
    for (auto& o : ops) {
      if (failed_) return;
      trace_ += (trace_.empty() ? "" : " ") + Name(o);
      Do(o);
    }
    if (!failed_) { trace_ += " end"; End(); }
  }

 private:
  std::string id_, dir_;
  Cfg cfg_;
  std::string prefix_, trace_;
  bool failed_ = false;
  MessageQueue mq_;
  std::vector<MFile> files_;       // existing ones
  int64_t ts_ = 0;
  int serial_ = 0;
  std::vector<MReader> readers_;

  std::string Path(int64_t id) { char b[32]; snprintf(b, 32, ".%010lld", (long long)id); return prefix_ + b; }
  void Ok(const Status& s, const char* what) { if (s != Status::SUCCESS) Bad(std::string(what) + ": " + ToString(s)); }
  void Is(const Status& s, Status::Code c, const char* what) { if (s != c) Bad(std::string(what) + " gives " + ToString(s) + " and not " + Status::CodeName(c)); }

  void Open(int options = 0) {
    Ok(mq_.Open(prefix_, cfg_.max, cfg_.options | options), "Open");
    if (files_.empty()) { MFile f; f.id = 0; ts_ = 0; files_.push_back(f); }
    else ts_ = files_.back().meta_ts;
    if (mq_.GetTimestamp() != ts_) Bad("the timestamp after opening is " + std::to_string(mq_.GetTimestamp()) + " and not " + std::to_string(ts_));
    Is(mq_.Open(prefix_, cfg_.max), Status::PRECONDITION_ERROR, "opening an open queue");
  }
  void Synced() { files_.back().meta_ts = ts_; files_.back().meta_size = files_.back().size; }
  void Close() {
    Synced();
    Ok(mq_.Close(), "Close");
    for (auto& r : readers_) if (r.r) { int64_t t; std::string m; Is(r.r->Read(&t, &m, 0), Status::CANCELED_ERROR, "reading of a closed queue"); }
    readers_.clear();
    Is(mq_.Close(), Status::PRECONDITION_ERROR, "closing a closed queue");
    Is(mq_.Write(1, "x"), Status::PRECONDITION_ERROR, "writing to a closed queue");
    Is(mq_.Synchronize(false), Status::PRECONDITION_ERROR, "synchronizing a closed queue");
    Is(mq_.CancelReaders(), Status::PRECONDITION_ERROR, "cancelling readers of a closed queue");
    if (mq_.GetTimestamp() != -1) Bad("a closed queue has a timestamp");
  }
  void CheckFiles(bool closed) {
    std::vector<std::string> paths, want;
    Ok(MessageQueue::FindFiles(prefix_, &paths), "FindFiles");
    for (auto& f : files_) want.push_back(Path(f.id));
    if (paths != want) { std::string s; for (auto& p : paths) s += " " + p; Bad("FindFiles gives" + s + " instead of " + std::to_string(want.size()) + " files"); return; }
    for (auto& f : files_) {
      if ((int64_t)MessageQueue::GetFileID(Path(f.id)) != f.id) Bad("GetFileID");
      int64_t id = -1, ts = -1, size = -1;
      Ok(MessageQueue::ReadFileMetadata(Path(f.id), &id, &ts, &size), "ReadFileMetadata");
      if (id != f.id || ts != f.meta_ts || size != f.meta_size) Bad("metadata of file " + std::to_string(f.id) + ": " + std::to_string(id) + " " + std::to_string(ts) + " " + std::to_string(size) + ", expected " + std::to_string(f.meta_ts) + " " + std::to_string(f.meta_size));
      if (closed && GetFileSize(Path(f.id)) != f.size) Bad("size of file " + std::to_string(f.id) + " is " + std::to_string(GetFileSize(Path(f.id))) + " and not " + std::to_string(f.size));
    }
  }
  // The next message that a reader has to get.
  const Msg* Next(MReader& r, bool* gone) {
    *gone = false;
    if (!r.started) { r.started = true; r.file = files_.front().id; r.idx = 0; first_ = true; }
    while (true) {
      auto it = std::find_if(files_.begin(), files_.end(), [&](const MFile& f) { return f.id == r.file; });
      if (it == files_.end()) { *gone = true; return nullptr; }
      while (r.idx < it->recs.size() && it->recs[r.idx].ts < r.min) r.idx++;
      if (r.idx < it->recs.size()) return &it->recs[r.idx];
      if (it + 1 == files_.end()) return nullptr;
      r.file++;
      r.idx = 0;
    }
  }
  bool first_ = false;
  // Reads one message; false if there is none.
  bool Read(MReader& r) {
    if (r.dead) return false;
    if (r.canceled) { int64_t t; std::string m; Is(r.r->Read(&t, &m, 0), Status::CANCELED_ERROR, "reading after cancelling"); return false; }
    bool gone = false;
    const Msg* w = Next(r, &gone);
    if (gone) { r.dead = true; return false; }
    int64_t ts = -5;
    std::string m;
    const Status ws = r.r->Wait(0);
    if (w && ws != Status::SUCCESS) Bad("Wait gives " + ToString(ws) + " though there is a message");
    const Status s = r.r->Read(&ts, &m, 0);
    if (w == nullptr) {
      if (s != Status::INFEASIBLE_ERROR || ts != ts_) Bad("reader of " + std::to_string(r.min) + ": " + ToString(s) + " " + std::to_string(ts) + " [" + m.substr(0, 20) + "] though nothing is left");
      return false;
    }
    if (s != Status::SUCCESS || ts != w->ts || m != w->m) { Bad("reader of " + std::to_string(r.min) + ": " + ToString(s) + " " + std::to_string(ts) + " [" + m.substr(0, 20) + "] instead of " + std::to_string(w->ts) + " [" + w->m.substr(0, 20) + "]"); return false; }
    if (r.r->GetTimestamp() != ts) Bad("the reader's timestamp");
    r.idx++;
    return true;
  }
  void Do(const Op& o) {
    switch (o.kind) {
      case 'w': {
        const std::string t = Text(o.b, serial_++);
        if (files_.back().size >= cfg_.max) {
          Synced();
          MFile f;
          f.id = files_.back().id + 1;
          f.meta_ts = ts_;
          files_.push_back(f);
        }
        ts_ = std::max<int64_t>(ts_, o.a);
        files_.back().recs.push_back({ts_, t});
        files_.back().size += 12 + t.size();
        if (cfg_.options & MessageQueue::OPEN_SYNC_HARD) Synced();
        Ok(mq_.Write(o.a, t), "Write");
        break;
      }
      case 'v': Is(mq_.Write(1LL << 48, "x"), Status::INVALID_ARGUMENT_ERROR, "Write with a timestamp out of range"); break;
      case 'u': ts_ = std::max<int64_t>(ts_, o.a); Ok(mq_.UpdateTimestamp(o.a), "UpdateTimestamp"); break;
      case 'Y': Ok(mq_.Synchronize(false), "Synchronize"); Synced(); break;
      case 'H': Ok(mq_.Synchronize(true), "Synchronize(hard)"); Synced(); break;
      case 'O': Close(); CheckFiles(true); Open(); break;
      case 'T': Close(); files_.clear(); Open(MessageQueue::OPEN_TRUNCATE); break;
      case 'n': {
        MReader r;
        r.min = o.a;
        r.r = mq_.MakeReader(o.a);
        if (r.r->GetTimestamp() != -1) Bad("a new reader has a timestamp");
        if (readers_.size() >= 3) readers_.erase(readers_.begin());
        readers_.push_back(std::move(r));
        break;
      }
      case 'r': for (auto& r : readers_) if (!failed_) Read(r); break;
      case 'R': for (auto& r : readers_) while (!failed_ && Read(r)) {} break;
      case 'c': Ok(mq_.CancelReaders(), "CancelReaders"); for (auto& r : readers_) r.canceled = true; break;
      case 'D': Ok(MessageQueue::RemoveOldFiles(prefix_, o.a, true), "RemoveOldFiles"); Remove(o.a, true); break;
      case 'Z': Close(); Ok(MessageQueue::RemoveOldFiles(prefix_, o.a, false), "RemoveOldFiles"); Remove(o.a, false); CheckFiles(true); Open(); break;
      case 'V': Visit(); break;
    }
    if (!failed_) {
      if (mq_.GetTimestamp() != ts_) Bad("the timestamp is " + std::to_string(mq_.GetTimestamp()) + " and not " + std::to_string(ts_));
      CheckFiles(false);
    }
  }
  void Remove(int64_t th, bool keep) {
    for (size_t i = 0; i < files_.size();) {
      if ((!keep || i + 1 < files_.size()) && files_[i].meta_ts < th) files_.erase(files_.begin() + i); else i++;
    }
  }
  // Another queue object reads the same files: what has been synchronized, at least.
  void Visit() {
    MessageQueue q;
    Ok(q.Open(prefix_, cfg_.max, MessageQueue::OPEN_READ_ONLY), "opening read-only");
    if (failed_) return;
    Is(q.Write(1, "x"), Status::PRECONDITION_ERROR, "writing to a read-only queue");
    for (int64_t min : {0, 4, 8}) {
      auto r = q.MakeReader(min);
      std::vector<Msg> all;
      size_t must = 0;
      for (auto& f : files_) {
        int64_t off = 32;
        for (auto& m : f.recs) {
          off += 12 + m.m.size();
          if (m.ts < min) continue;
          all.push_back(m);
          if (off <= f.meta_size) must = all.size();
        }
      }
      size_t n = 0;
      while (true) {
        int64_t ts;
        std::string m;
        const Status s = r->Read(&ts, &m, 0);
        if (s == Status::NOT_FOUND_ERROR) break;
        if (s != Status::SUCCESS || n >= all.size() || all[n].ts != ts || all[n].m != m) { Bad("reading read-only from " + std::to_string(min) + ": message " + std::to_string(n) + ": " + ToString(s) + " " + std::to_string(ts) + " [" + m.substr(0, 20) + "]"); return; }
        n++;
      }
      if (n < must) Bad("reading read-only from " + std::to_string(min) + ": " + std::to_string(n) + " messages instead of " + std::to_string(must) + " synchronized ones");
    }
    Ok(q.Close(), "closing read-only");
  }
  void End() {
    for (auto& r : readers_) while (!failed_ && Read(r)) {}
    for (int64_t min : {0, 2, 5, 6, 10}) {
      MReader r;
      r.min = min;
      r.r = mq_.MakeReader(min);
      while (!failed_ && Read(r)) {}
    }
    if (failed_) return;
    Visit();
    if (failed_) return;
    Close();
    CheckFiles(true);
    Visit();
    // File by file.
    for (auto& f : files_) {
      if (failed_) return;
      for (int64_t min : {(int64_t)0, (int64_t)5, INT64MAX}) {
        MemoryMapParallelFile file;
        Ok(file.Open(Path(f.id), false), "opening a data file");
        int64_t off = 0;
        for (auto& m : f.recs) {
          int64_t ts;
          std::string text;
          const Status s = MessageQueue::ReadNextMessage(&file, &off, &ts, &text, min);
          if (s != Status::SUCCESS || ts != m.ts || (ts >= min && text != m.m)) { Bad("ReadNextMessage: " + ToString(s) + " " + std::to_string(ts)); return; }
        }
        if (off != std::max<int64_t>(f.size, 32) && !f.recs.empty()) Bad("ReadNextMessage: offset " + std::to_string(off));
        int64_t ts;
        std::string text;
        if (MessageQueue::ReadNextMessage(&file, &off, &ts, &text, min) == Status::SUCCESS) Bad("a message after the end");
        file.Close();
      }
    }
    if (cfg_.stray) {
      std::string s;
      for (auto* n : {"q.0000000007.bak", "q.00000000019", "qq.0000000003", "q.000000001"}) if (ReadFile(dir_ + "/" + n, &s) != Status::SUCCESS || s != "stray") Bad(std::string("a foreign file is altered: ") + n);
    }
  }
};

static double Wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const bool th = Thorough();
  const double t0 = Wall();
  const std::string dir = Scratch() + "/mq";
  ::mkdir(dir.c_str(), 0755);
  const std::vector<Cfg> cfgs = {
      {"switching", 60, 0, false}, {"each", 0, 0, false}, {"one", 1 << 20, 0, false},
      {"hard", 60, MessageQueue::OPEN_SYNC_HARD, false}, {"stray", 60, 0, true}, {"edge", 44, 0, false}};
  const std::vector<Op> full = {{'w', 1, 0}, {'w', 5, 1}, {'w', 3, 2}, {'w', 9, 3}, {'w', 6, 4}, {'u', 7}, {'Y'}, {'H'}, {'O'}, {'T'}, {'n', 0}, {'n', 4}, {'n', 8}, {'r'}, {'R'}, {'c'}, {'D', 5}, {'Z', 6}, {'V'}, {'v'}};
  const std::vector<Op> small = {{'w', 1, 1}, {'w', 5, 2}, {'w', 8, 1}, {'u', 7}, {'Y'}, {'O'}, {'n', 0}, {'n', 5}, {'r'}, {'D', 5}};
  long n = 0, steps = 0, index = 0;
  bool stop = false;
  auto run = [&](const Cfg& c, const std::vector<Op>& ops) {
    std::string id = c.name + "/";
    for (auto& o : ops) id += Name(o) + ".";
    const std::string& only = mc::args().only;
    if (!only.empty() ? only != id : index++ % mc::args().num_workers != mc::args().worker) return;
    if (stop) { mc::Stat("incomplete", 1); return; }
    if (only.empty() && Wall() - t0 > mc::args().time) { stop = true; mc::Note("time ran out in " + id); return; }
    mc::SetContext(id);
    alarm(20);
    { Case k(id, dir, c); k.Run(ops); }
    alarm(0);
    n++;
    steps += ops.size();
  };
  std::function<void(const Cfg&, const std::vector<Op>&, std::vector<Op>&, size_t)> gen = [&](const Cfg& c, const std::vector<Op>& al, std::vector<Op>& pre, size_t len) {
    if (pre.size() == len) { run(c, pre); return; }
    for (auto& o : al) { pre.push_back(o); gen(c, al, pre, len); pre.pop_back(); }
  };
  std::vector<Op> pre;
  for (size_t len = 0; len <= 2; len++) for (auto& c : cfgs) gen(c, full, pre, len);
  for (auto& c : cfgs) { pre = {{'w', 2, 1}, {'n', 0}, {'w', 4, 2}, {'r'}, {'w', 6, 1}}; gen(c, full, pre, 7); }
  pre.clear();
  for (int i : {0, 3}) if (th || i == 0) gen(cfgs[i], full, pre, 3);
  for (int i : {0, 1}) gen(cfgs[i], small, pre, 4);
  if (th) {
    for (auto& c : cfgs) gen(c, full, pre, 3);
    for (auto& c : cfgs) gen(c, small, pre, 5);
    for (auto& c : cfgs) { pre = {{'w', 2, 1}, {'n', 0}, {'w', 4, 2}, {'r'}, {'w', 6, 1}}; gen(c, full, pre, 8); }
    pre.clear();
    gen(cfgs[0], full, pre, 4);
    gen(cfgs[0], small, pre, 6);
  }
  mc::Stat("states", n);
  mc::Stat("transitions", steps);
  mc::Stat("traces", n);
  mc::FinishReport();
}
