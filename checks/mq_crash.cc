// The process stops at any point of a message queue session: what the next session makes of the files.
#include "crash.h"
#include "tkrzw_file_util.h"
#include "tkrzw_message_queue.h"
using namespace tkrzw;

struct Msg { int64_t ts; std::string m; bool operator==(const Msg& o) const { return ts == o.ts && m == o.m; } };
struct Op { char kind; int a = 0, b = 0; };
struct Cfg { std::string name; int64_t max; int options; };
static std::string Text(int v, int serial) {
  switch (v) {
    case 0: return "";
    case 1: return "m" + std::to_string(serial);
    case 2: return std::string(40, 'a' + serial % 26);
    case 3: return std::string(9000, 'A' + serial % 26) + "z";
    case 4: return std::string(4050, 'A' + serial % 26) + "y";
    case 5: return std::string(4040, '\xff') + std::to_string(serial);
    default: return std::string("\x00\xff\x00\xff", 4) + std::to_string(serial);
  }
}
static std::string Name(const Op& o) { return std::string(1, o.kind) + (o.kind == 'w' ? std::to_string(o.a) + ":" + std::to_string(o.b) : o.kind == 'u' ? std::to_string(o.a) : ""); }
static std::string Show(const std::vector<Msg>& v) { std::string s = "("; for (auto& m : v) s += std::to_string(m.ts) + "[" + m.m.substr(0, 3) + "/" + std::to_string(m.m.size()) + "] "; return s + ")"; }

// What is known after each operation of the session.
struct Model {
  std::vector<Op> ops;                      // with the opening and the closing
  std::vector<std::vector<Msg>> after;      // messages, index 0: before the session
  std::vector<size_t> synced;               // messages that a read-only reader has to get
  std::vector<std::string> texts;
  Model(const std::vector<Op>& base, const std::vector<Op>& session, const Cfg& c) {
    std::vector<Msg> all;
    int64_t ts = 0, size = 32;
    size_t sync = 0;
    int serial = 0;
    auto one = [&](const Op& o) {
      if (o.kind == 'w') {
        texts.push_back(Text(o.b, serial++));
        if (size >= c.max) { sync = all.size(); size = 32; }
        ts = std::max<int64_t>(ts, o.a);
        all.push_back({ts, texts.back()});
        size += 12 + texts.back().size();
        if (c.options & MessageQueue::OPEN_SYNC_HARD) sync = all.size();
      } else if (o.kind == 'u') {
        ts = std::max<int64_t>(ts, o.a);
        texts.push_back("");
      } else {
        sync = all.size();
        texts.push_back("");
      }
    };
    for (auto& o : base) one(o);
    sync = all.size();
    after.push_back(all);
    synced.push_back(sync);
    base_texts = texts;
    texts.clear();
    ops.push_back(Op{'O'});
    for (auto& o : session) ops.push_back(o);
    ops.push_back(Op{'X'});
    for (auto& o : ops) { one(o); after.push_back(all); synced.push_back(sync); }
  }
  std::vector<std::string> base_texts;
};
static std::string Prefix(const std::string& dir) { return dir + "/q"; }
static Status Do(MessageQueue* q, const Op& o, const std::string& text, const std::string& dir, const Cfg& c) {
  switch (o.kind) {
    case 'O': return q->Open(Prefix(dir), c.max, c.options);
    case 'w': return q->Write(o.a, text);
    case 'u': return q->UpdateTimestamp(o.a);
    case 'Y': return q->Synchronize(false);
    case 'H': return q->Synchronize(true);
    case 'X': return q->Close();
  }
  return Status();
}
static std::string Drain(MessageQueue* q, int64_t min, bool ro, std::vector<Msg>* out) {
  auto r = q->MakeReader(min);
  while (true) {
    int64_t ts = -1;
    std::string m;
    const Status s = r->Read(&ts, &m, 0);
    if (s == (ro ? Status::NOT_FOUND_ERROR : Status::INFEASIBLE_ERROR)) return "";
    if (s != Status::SUCCESS) return "reading from " + std::to_string(min) + ": " + ToString(s) + " after " + Show(*out);
    out->push_back({ts, m});
    if (out->size() > 100) return "endless reading";
  }
}
static std::string Judge(const Model& mod, const Cfg& c, const std::string& dir, const CrashPos& pos) {
  const auto& least = mod.after[pos.ended];
  const auto& most = mod.after[pos.begun];
  {
    MessageQueue q;
    const Status s = q.Open(Prefix(dir), c.max, MessageQueue::OPEN_READ_ONLY);
    if (s == Status::NOT_FOUND_ERROR) {
      if (mod.synced[pos.ended] > 0) return "read-only opening: " + ToString(s);
    } else {
      if (s != Status::SUCCESS) return "read-only opening: " + ToString(s);
      std::vector<Msg> got;
      std::string e = Drain(&q, 0, true, &got);
      if (!e.empty()) return "read-only: " + e;
      if (got.size() > most.size() || !std::equal(got.begin(), got.end(), most.begin())) return "read-only: " + Show(got) + " is no prefix of " + Show(most);
      if (got.size() < mod.synced[pos.ended]) return "read-only: " + Show(got) + " lacks synchronized ones of " + Show(most);
      if (q.Close() != Status::SUCCESS) return "closing read-only";
    }
  }
  MessageQueue q;
  Status s = q.Open(Prefix(dir), c.max, 0);
  if (s != Status::SUCCESS) return "opening: " + ToString(s);
  std::vector<Msg> got;
  std::string e = Drain(&q, 0, false, &got);
  if (!e.empty()) return e;
  if (got != least && got != most) return "the messages are " + Show(got) + " and not " + Show(least) + " or " + Show(most);
  const int64_t last = got.empty() ? 0 : got.back().ts;
  if (q.GetTimestamp() < last) return "the timestamp " + std::to_string(q.GetTimestamp()) + " is below that of the last message";
  auto all = got;
  int64_t ts = q.GetTimestamp();
  int n = 0;
  for (auto& t : {std::string("later"), std::string(5000, 'q'), std::string("")}) {
    const int64_t w = n == 0 ? 0 : n == 1 ? last + 2 : 3;
    s = q.Write(w, t);
    if (s != Status::SUCCESS) return "writing afterwards: " + ToString(s);
    ts = std::max(ts, w);
    all.push_back({ts, t});
    n++;
  }
  for (int phase = 0; phase < 3; phase++) {
    for (int64_t min : {(int64_t)0, last, last + 1, ts}) {
      std::vector<Msg> want, have;
      for (auto& m : all) if (m.ts >= min) want.push_back(m);
      e = Drain(&q, min, phase == 2, &have);
      if (!e.empty()) return "afterwards: " + e;
      if (have != want) return "afterwards, from " + std::to_string(min) + ", the messages are " + Show(have) + " and not " + Show(want);
    }
    s = q.Close();
    if (s != Status::SUCCESS) return "closing afterwards: " + ToString(s);
    if (phase == 2) break;
    s = q.Open(Prefix(dir), c.max, phase == 1 ? MessageQueue::OPEN_READ_ONLY : 0);
    if (s != Status::SUCCESS) return "opening afterwards: " + ToString(s);
    if (q.GetTimestamp() != ts) return "the timestamp after closing and opening";
  }
  return "";
}
static CrashCase MakeCase(const std::string& name, const std::vector<Op>& base, bool fresh, const std::vector<Op>& ops, const Cfg& c, int nested) {
  auto mod = std::make_shared<Model>(base, ops, c);
  CrashCase k;
  k.name = c.name + "/" + name;
  k.setup = [=](const std::string& dir) {
    if (fresh) return;
    MessageQueue q;
    Status s = q.Open(Prefix(dir), c.max, c.options | MessageQueue::OPEN_TRUNCATE);
    for (size_t i = 0; i < base.size(); i++) s |= Do(&q, base[i], mod->base_texts[i], dir, c);
    s |= q.Close();
    if (s != Status::SUCCESS) mc::Violation(k.name + ": setup", ToString(s));
  };
  k.session = [=](const std::string& dir) -> std::shared_ptr<void> {
    auto q = std::make_shared<MessageQueue>();
    mc::FsMark("start");
    for (size_t i = 0; i < mod->ops.size(); i++) {
      mc::FsMark("b");
      const Status s = Do(q.get(), mod->ops[i], mod->texts[i], dir, c);
      mc::FsMark("e");
      if (s != Status::SUCCESS) mc::Violation(k.name + ": " + Name(mod->ops[i]), ToString(s));
    }
    return q;
  };
  k.verify = [=](const std::string& dir, const CrashPos& pos) { return Judge(*mod, c, dir, pos); };
  k.recover = [=](const std::string& dir) { MessageQueue q; q.Open(Prefix(dir), c.max, 0); q.Close(); };
  k.nested = nested;
  k.key = [=](const CrashPos& p) {
    std::string s = c.name + std::to_string(mod->synced[p.ended]);
    for (auto* v : {&mod->after[p.ended], &mod->after[p.begun]}) { for (auto& m : *v) s += std::to_string(m.ts) + m.m + "\x01"; s += "\x02"; }
    return s;
  };
  return k;
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const bool th = Thorough();
  const std::vector<Cfg> cfgs = {{"switching", 60, 0}, {"big", 1 << 20, 0}, {"each", 0, 0}, {"hard", 60, MessageQueue::OPEN_SYNC_HARD}, {"page", 4200, 0}};
  const std::vector<Op> al = {{'w', 1, 0}, {'w', 5, 1}, {'w', 3, 2}, {'w', 9, 3}, {'w', 2, 4}, {'w', 6, 5}, {'w', 7, 6}, {'u', 8}, {'Y'}, {'H'}};
  const std::vector<std::pair<std::string, std::vector<Op>>> bases = {
      {"", {}}, {"two:", {{'w', 2, 1}, {'w', 4, 1}}}, {"files:", {{'w', 2, 2}, {'w', 4, 2}, {'w', 6, 2}, {'u', 7}}}, {"page:", {{'w', 2, 5}}}};
  CrashRunner r;
  auto name = [](const std::vector<Op>& ops) { std::string s; for (auto& o : ops) s += (s.empty() ? "" : ".") + Name(o); return s; };
  auto sweep = [&](const Cfg& c, const std::string& bn, const std::vector<Op>& base, bool fresh, size_t len, int nested) {
    std::vector<Op> ops;
    std::function<void()> gen = [&] {
      if (ops.size() == len) { r.Run(MakeCase((fresh ? "fresh:" : bn) + name(ops), base, fresh, ops, c, nested)); return; }
      for (auto& o : al) { ops.push_back(o); gen(); ops.pop_back(); }
    };
    gen();
  };
  for (size_t len = 0; len <= 2; len++) {
    for (auto& c : cfgs) {
      sweep(c, "", {}, true, len, len < 2 ? 1 : th ? 1 : 4);
      for (auto& b : bases) sweep(c, b.first, b.second, false, len, len < 2 ? 1 : th ? 1 : 4);
    }
  }
  for (auto& c : cfgs) if (th || c.name != "hard" && c.name != "page") sweep(c, "", {}, true, 3, th ? 2 : 0);
  for (auto& b : bases) if (th || b.first == "two:" || b.first == "files:") sweep(cfgs[0], b.first, b.second, false, 3, th ? 2 : 0);
  if (th) {
    for (auto& c : cfgs) for (auto& b : bases) sweep(c, b.first, b.second, false, 3, 0);
    for (auto& c : cfgs) sweep(c, "", {}, true, 4, 0);
  }
  r.Finish();
}
