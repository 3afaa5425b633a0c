// Histories of updates for the crash checks of databases, and the states of the records they go through.
#pragma once
#include "crash.h"
#include "tkrzw_dbm.h"

typedef std::map<std::string, std::string> Map;

struct COp { char kind; int k = 0, v = 0; };   // see CName
static const char* const CKEY[] = {"a", "bb", "", "d0123456789012345678901234567890", "e", "f", "aa", "ab", "ba", "g", "h", "i"};
inline std::string CVal(int v) {
  switch (v) {
    case 0: return "";
    case 1: return "1";
    case 2: return "two-two-two-two-two-two";
    case 3: return std::string(150, 'w');
    case 4: return std::string(3000, 'L') + "end";
    case 5: return "TWO-TWO-TWO-TWO-TWO-TWO";
    case 6: return std::string("\x00\x01\xff\xee", 4);
    default: return "v" + std::to_string(v);
  }
}
inline std::string CName(const COp& o) {
  std::string s(1, o.kind);
  if (strchr("SARMW", o.kind)) s += std::to_string(o.k);
  if (strchr("SAM", o.kind)) s += "=" + std::to_string(o.v);
  return s;
}
struct CHist {
  std::string name;
  std::vector<COp> base;     // before the session (closed cleanly)
  bool fresh = false;        // the file does not exist before the session
  std::vector<COp> ops;      // in the session; a closing follows
};
inline bool CSync(char k) { return strchr("YHBX", k) != nullptr; }
// The states that an operation goes through, from the one before to the one after.
inline std::vector<Map> CStates(const Map& m0, const COp& o) {
  std::vector<Map> r = {m0};
  Map m = m0;
  const std::string k = CKEY[o.k];
  switch (o.kind) {
    case 'S': m[k] = CVal(o.v); r.push_back(m); break;
    case 'A': { auto it = m.find(k); if (it == m.end()) m[k] = CVal(o.v); else it->second += "," + CVal(o.v); r.push_back(m); break; }
    case 'R': m.erase(k); r.push_back(m); break;
    case 'C': m.clear(); r.push_back(m); break;
    case 'M': m[k] = CVal(o.v); r.push_back(m); m.erase(CKEY[o.k + 1]); r.push_back(m); break;
    case 'W': { auto it = m.find(k); if (it != m.end() && !m.count("new")) { std::string v = it->second; m.erase(k); r.push_back(m); m["new"] = v; r.push_back(m); } break; }
    default: break;
  }
  return r;
}
inline tkrzw::Status CDo(tkrzw::DBM* d, const COp& o, const std::function<tkrzw::Status(const COp&)>& special) {
  using namespace tkrzw;
  const std::string k = CKEY[o.k];
  switch (o.kind) {
    case 'S': return d->Set(k, CVal(o.v));
    case 'A': return d->Append(k, CVal(o.v), ",");
    case 'R': { Status s = d->Remove(k); return s == Status::NOT_FOUND_ERROR ? Status() : s; }
    case 'C': return d->Clear();
    case 'Y': return d->Synchronize(false);
    case 'H': return d->Synchronize(true);
    case 'B': return special ? special(o) : d->Rebuild();
    case 'W': { Status s = d->Rekey(k, "new"); return s == Status::NOT_FOUND_ERROR || s == Status::DUPLICATION_ERROR ? Status() : s; }
    case 'M': {
      const std::string v = CVal(o.v);
      DBM::RecordProcessorSet set(nullptr, v, true, nullptr);
      Status rs(Status::SUCCESS);
      DBM::RecordProcessorRemove rem(&rs, nullptr);
      const std::string k2 = CKEY[o.k + 1];
      return d->ProcessMulti({{k, &set}, {k2, &rem}}, true);
    }
    case 'X': return d->Close();
  }
  return Status();
}

// What is known at each position of a history.
struct CModel {
  CHist h;
  std::vector<std::vector<Map>> path;   // per operation, the states it goes through
  std::vector<Map> after;               // after each operation (index 0: at the beginning)
  explicit CModel(const CHist& hist) : h(hist) {
    Map m;
    for (auto& o : h.base) m = CStates(m, o).back();
    after.push_back(m);
    std::vector<COp> all = {COp{'O'}};
    for (auto& o : h.ops) all.push_back(o);
    all.push_back(COp{'X'});
    for (auto& o : all) {
      path.push_back(CStates(after.back(), o));
      after.push_back(path.back().back());
    }
    ops = all;
  }
  std::vector<COp> ops;                 // with the opening and the closing
  // The states that the effect of a prefix of the updates may have.
  std::vector<Map> Prefixes(const CrashPos& p) const {
    std::vector<Map> r;
    if (p.begun > p.ended) r = path[p.begun - 1];
    else r.push_back(after[p.ended]);
    return r;
  }
  // The states at the last synchronization.
  std::vector<Map> Synced(const CrashPos& p) const {
    std::vector<Map> r;
    int s = 0;
    for (int i = 0; i < p.ended; i++) if (ops[i].kind == 'C' || CSync(ops[i].kind) || ops[i].kind == 'O') s = i + 1;
    r.push_back(after[s]);
    if (p.begun > p.ended && (CSync(ops[p.begun - 1].kind) || ops[p.begun - 1].kind == 'C')) r.push_back(after[p.begun]);
    // Clearing saves the state before as a closing does.
    if (p.begun > p.ended && ops[p.begun - 1].kind == 'C') r.push_back(after[p.ended]);
    return r;
  }
  // Keys that may have changed since the last synchronization, and every value a key ever had.
  std::set<std::string> Touched(const CrashPos& p) const {
    std::set<std::string> r;
    int s = 0;
    for (int i = 0; i < p.ended; i++) if (CSync(ops[i].kind)) s = i + 1;
    for (int i = s; i < p.begun; i++) {
      if (ops[i].kind == 'C') for (auto& x : after[s]) r.insert(x.first);
      if (strchr("SARMW", ops[i].kind)) r.insert(CKEY[ops[i].k]);
      if (ops[i].kind == 'M') r.insert(CKEY[ops[i].k + 1]);
      if (ops[i].kind == 'W') r.insert("new");
    }
    return r;
  }
  // Keys that the operation in flight may change.
  std::set<std::string> InFlight(const CrashPos& p) const {
    std::set<std::string> r;
    if (p.begun == p.ended) return r;
    const COp& o = ops[p.begun - 1];
    if (o.kind == 'C') for (auto& x : after[p.ended]) r.insert(x.first);
    if (strchr("SARMW", o.kind)) r.insert(CKEY[o.k]);
    if (o.kind == 'M') r.insert(CKEY[o.k + 1]);
    if (o.kind == 'W') r.insert("new");
    return r;
  }
  std::map<std::string, std::set<std::string>> Ever(const CrashPos& p) const {
    std::map<std::string, std::set<std::string>> r;
    Map m;
    auto add = [&](const Map& x) { for (auto& e : x) r[e.first].insert(e.second); };
    for (auto& o : h.base) for (auto& x : CStates(m, o)) { add(x); m = x; }
    for (int i = 0; i < p.begun; i++) for (auto& x : path[i]) add(x);
    return r;
  }
  std::string Key(const CrashPos& p) const {
    std::string s;
    auto add = [&](const Map& m) { for (auto& e : m) s += e.first + "\x01" + e.second + "\x02"; s += "\x03"; };
    for (auto& m : Prefixes(p)) add(m);
    for (auto& m : Synced(p)) add(m);
    if (p.torn) s += "torn";
    for (auto& k : Touched(p)) s += k + "\x04";
    for (auto& e : Ever(p)) for (auto& v : e.second) s += e.first + "\x05" + v + "\x06";
    return s;
  }
};
inline std::string ShowMap(const Map& m) {
  std::string s = "{";
  auto sh = [](const std::string& x) {
    std::string r;
    for (char c : x.substr(0, 24)) { if (c >= 32 && c < 127) r += c; else { char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char)c); r += b; } }
    return r + (x.size() > 24 ? "...(" + std::to_string(x.size()) + ")" : "");
  };
  for (auto& e : m) s += (s.size() > 1 ? ", " : "") + sh(e.first) + ":" + sh(e.second);
  return s + "}";
}
inline std::string ShowMaps(const std::vector<Map>& v) { std::string s; for (auto& m : v) s += (s.empty() ? "" : " or ") + ShowMap(m); return s; }
// The whole content through ProcessEach, and through Get of each key.
inline tkrzw::Status ReadAll(tkrzw::DBM* d, Map* out, std::vector<std::string>* order = nullptr, bool* dup = nullptr) {
  using namespace tkrzw;
  struct P final : public DBM::RecordProcessor {
    Map* out; std::vector<std::string>* order; bool* dup;
    std::string_view ProcessFull(std::string_view k, std::string_view v) override {
      if (!out->emplace(std::string(k), std::string(v)).second && dup) *dup = true;
      if (order) order->push_back(std::string(k));
      return NOOP;
    }
  } p;
  p.out = out; p.order = order; p.dup = dup;
  return d->ProcessEach(&p, false);
}
