// Codecs, comparators, hash functions, searches and compressors: every input within a bound against an
// independent definition; the inputs are in blocks of exactly their size so that AddressSanitizer sees an overrun.
#include <cmath>
#include <cstring>
#include <functional>
#include "conc.h"
#include "seqstub.h"
#include "tkrzw_compress.h"
#include "tkrzw_dbm_ulog.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_util.h"
#include "tkrzw_hash_util.h"
#include "tkrzw_key_comparators.h"
#include "tkrzw_str_util.h"
#include "tkrzw_sys_config.h"
using namespace tkrzw;
typedef std::string S;
typedef std::string_view SV;
static double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static long cases = 0, steps = 0, counter = 0;
static double deadline;
static bool late = false;
// A copy of the input in a block of its own.
struct Box {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Box(const S& s) : p(s.empty() ? nullptr : new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
  operator SV() const { return n ? SV(p.get(), n) : SV(""); }
};
static S Show(SV s) {
  S r = "\"";
  for (size_t i = 0; i < s.size() && i < 60; i++) { unsigned char c = s[i]; char b[8]; if (c > ' ' && c < 0x7f && c != '"' && c != '\\') r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
  return r + (s.size() > 60 ? "...\"(" + std::to_string(s.size()) + ")" : "\"");
}
static S Show(const std::vector<int32_t>& v) { S r = "["; for (int x : v) r += std::to_string(x) + ","; return r + "]"; }
static S cur;
static void Bad(const S& what) { if (getenv("VP_ALL")) printf("ALL %s: %s\n", cur.c_str(), what.c_str()); else mc::Violation(cur, what); }
// Does case "id" belong to this worker?
static bool Mine(const S& id) {
  const S& only = mc::args().only;
  if (!only.empty()) { if (only != id) return false; }
  else if (counter++ % mc::args().num_workers != mc::args().worker) return false;
  if (late) return false;
  if (Now() > deadline) { late = true; mc::Stat("incomplete", 1); mc::Note("time ran out in " + id); return false; }
  cur = id;
  mc::SetContext(id);
  cases++;
  return true;
}
// All strings over the alphabet up to the length.
static std::vector<S> All(const S& alpha, int len) {
  std::vector<S> r{""};
  size_t from = 0;
  for (int l = 0; l < len; l++) { size_t to = r.size(); for (; from < to; from++) for (char c : alpha) r.push_back(r[from] + c); }
  return r;
}
// ---- Comparators.
typedef int32_t (*Cmp)(SV, SV);
static int Sgn(long double x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
static int64_t OInt(SV s) {
  size_t i = 0;
  auto sp = [&]() { while (i < s.size() && (unsigned char)s[i] <= ' ') i++; };
  sp();
  bool neg = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  sp();
  int64_t n = 0;
  for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++) n = n * 10 + (s[i] - '0');
  return neg ? -n : n;
}
static uint64_t OHex(SV s) {
  size_t i = 0;
  while (i < s.size() && (unsigned char)s[i] <= ' ') i++;
  if (i + 1 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) i += 2;
  uint64_t n = 0;
  for (; i < s.size() && isxdigit((unsigned char)s[i]); i++) n = n * 16 + (s[i] <= '9' ? s[i] - '0' : (s[i] | 32) - 'a' + 10);
  return n;
}
static uint64_t OBig(SV s) { uint64_t n = 0; for (size_t i = 0; i < s.size() && i < 8; i++) n = n << 8 | (unsigned char)s[i]; return n; }
static S Low(SV s) { S r(s); for (auto& c : r) if (c >= 'A' && c <= 'Z') c += 32; return r; }
static int OLex(SV a, SV b) {
  for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
static int64_t OSigned(SV s) { uint64_t n = OBig(s); return s.size() == 1 ? (int64_t)(int8_t)n : s.size() == 2 ? (int64_t)(int16_t)n : s.size() == 4 ? (int64_t)(int32_t)n : (int64_t)n; }
static int ODouble(SV a, SV b) {
  auto num = [](SV s, bool* nan) {
    size_t i = 0;
    while (i < s.size() && (unsigned char)s[i] <= ' ') i++;
    bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    S t = Low(s.substr(i));
    *nan = false;
    if (t.substr(0, 3) == "inf") return neg ? -HUGE_VALL : HUGE_VALL;
    if (t.substr(0, 3) == "nan") { *nan = true; return 0.0L; }
    while (i < s.size() && (unsigned char)s[i] <= ' ') i++;
    S d;
    while (i < s.size() && isdigit((unsigned char)s[i])) d += s[i++];
    bool any = !d.empty();
    if (i < s.size() && s[i] == '.') { d += s[i++]; while (i < s.size() && isdigit((unsigned char)s[i])) { d += s[i++]; any = true; } }
    if (!any) return 0.0L;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) d += "e" + std::to_string(OInt(s.substr(i + 1)));
    long double v = strtod(("0" + d).c_str(), nullptr);
    return neg ? -v : v;
  };
  bool na, nb;
  long double x = num(a, &na), y = num(b, &nb);
  if (na || nb) return na && nb ? 0 : na ? -1 : 1;
  return Sgn(x - y == x - y ? x - y : x < y ? -1 : x > y ? 1 : 0);
}
static void Comparators(bool th) {
  struct C { const char* name; Cmp f, pair; Cmp oracle; S alpha; };
  const S ff = "\xff";
  const std::vector<C> cs = {
      {"Lexical", LexicalKeyComparator, PairLexicalKeyComparator, [](SV a, SV b) -> int32_t { return OLex(a, b); }, S("\0a\x7f\x80\xff", 5) + "b"},
      {"LexicalCase", LexicalCaseKeyComparator, PairLexicalCaseKeyComparator, [](SV a, SV b) -> int32_t { return OLex(Low(a), Low(b)); }, S("aAZz[`@{") + ff},
      {"Decimal", DecimalKeyComparator, PairDecimalKeyComparator, [](SV a, SV b) -> int32_t { return Sgn((long double)OInt(a) - (long double)OInt(b)); }, "019-+ a."},
      {"Hexadecimal", HexadecimalKeyComparator, PairHexadecimalKeyComparator, [](SV a, SV b) -> int32_t { return OHex(a) < OHex(b) ? -1 : OHex(a) > OHex(b); }, "019aFgxX "},
      {"RealNumber", RealNumberKeyComparator, PairRealNumberKeyComparator, ODouble, "015-.e +ifn"},
      {"SignedBigEndian", SignedBigEndianKeyComparator, PairSignedBigEndianKeyComparator, [](SV a, SV b) -> int32_t { return OSigned(a) < OSigned(b) ? -1 : OSigned(a) > OSigned(b); }, S("\0\1\x7f\x80\xff", 5)},
      {"FloatBigEndian", FloatBigEndianKeyComparator, PairFloatBigEndianKeyComparator, nullptr, S("\0\x3f\x80\xff", 4)},
  };
  for (auto& c : cs) {
    std::vector<S> keys = All(c.alpha, 3);
    const S n = c.name;
    if (n == "Decimal" || n == "Hexadecimal") for (const char* x : {"9223372036854775807", "9223372036854775806", "-9223372036854775807", "4294967296", "ffffffff", "0x7fffffffffffffff"}) keys.push_back(x);
    if (n == "RealNumber") for (const char* x : {"nan", "NaN", "-nan", "inf", "-inf", "INF", "-0", "0.5", "-0.25", "1e5", "1e-3", "123456.75", "0.001", "+inf"}) keys.push_back(x);
    if (n == "SignedBigEndian" || n == "FloatBigEndian") for (auto& x : All(c.alpha, 2)) { keys.push_back(S(6, 0) + x); keys.push_back(x + S(8 - x.size(), '\1')); keys.push_back(x + S(8, 0)); keys.push_back(x + S(2, 0)); keys.push_back(x + S(16 - x.size(), '\0')); }
    if (n == "FloatBigEndian") for (double d : {0.0, -0.0, 1.0, -1.0, 1e300, -1e-300, HUGE_VAL, -HUGE_VAL, (double)NAN, 0.5}) { for (size_t w : {4, 8, 16}) keys.push_back(FloatToStrBigEndian(d, w)); }
    // Numbers of 64 bits.
    if (n == "Hexadecimal" && Mine("comparator/Hexadecimal-2^63") && (c.f("8000000000000000", "1") != 1 || c.f("0xffffffffffffffff", "0") != 1)) Bad("8000000000000000 is not greater than 1");
    for (int pair = 0; pair < 2; pair++) {
      std::vector<S> ks = keys;
      if (pair) {
        std::vector<S> few;
        for (size_t i = 0; i < keys.size(); i += std::max<size_t>(1, keys.size() / 24)) few.push_back(keys[i]);
        ks.clear();
        for (auto& a : few) for (auto& b : few) ks.push_back(SerializeStrPair(a, b));
        // Keys that are no serialized pairs.
        for (auto& x : All(S("\0\1\2\x05\x81\xff", 6), 3)) ks.push_back(x);
        ks.push_back(S(9, '\xff') + "\x7f");
        ks.push_back("\1a" + S(9, '\xff') + "\x7f");
      }
      if (!Mine("comparator/" + n + (pair ? "-pair" : ""))) continue;
      Cmp f = pair ? c.pair : c.f;
      std::vector<Box> b;
      for (auto& k : ks) b.emplace_back(k);
      const size_t N = ks.size();
      std::vector<int> rank(N, 0);
      std::vector<signed char> m(N * N);
      for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { int r = f(b[i], b[j]); steps++; m[i * N + j] = Sgn(r); if (r < 0) rank[j]++; }
      for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
        const int want = rank[i] < rank[j] ? -1 : rank[i] > rank[j];
        if (m[i * N + j] != want) { Bad("not a total preorder at " + Show(ks[i]) + " and " + Show(ks[j])); return; }
        if (!pair && c.oracle && m[i * N + j] != Sgn(c.oracle(ks[i], ks[j]))) { Bad(n + " of " + Show(ks[i]) + " and " + Show(ks[j]) + " is " + std::to_string(m[i * N + j])); return; }
      }
      if (!pair) {
        // The result depends on the bytes alone; a view without data is an empty string.
        const int r = f(SV(), SV());
        if (r != f(SV(""), SV())) Bad("an empty view is not an empty string");
      } else {
        std::vector<S> few;
        for (size_t i = 0; i < keys.size(); i += std::max<size_t>(1, keys.size() / 24)) few.push_back(keys[i]);
        for (auto& a : few) for (auto& x : few) for (auto& y : few) for (auto& z : few) {
          int want = c.f(a, x);
          if (want == 0) want = OLex(y, z);  // the second part is in the lexical order
          if (&a - &few[0] > 6 && &x - &few[0] > 6) continue;
          if (Sgn(f(SerializeStrPair(a, y), SerializeStrPair(x, z))) != Sgn(want)) { Bad("pair comparison of (" + Show(a) + "," + Show(y) + ") and (" + Show(x) + "," + Show(z) + ")"); return; }
          steps++;
        }
      }
    }
  }
}
// ---- Serialization.
static S ONum(uint64_t n) { S r(1, n & 0x7f); while (n >>= 7) r.insert(r.begin(), (n & 0x7f) | 0x80); return r; }
static std::vector<S> Sizes() { std::vector<S> r; for (size_t n : {0, 1, 2, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385}) { S s(n, 'x'); for (size_t i = 0; i < n; i++) s[i] = (char)(i * 7 + n); r.push_back(s); } return r; }
template <typename T> static std::vector<T> Bounds() {
  std::set<T> r;
  typedef std::make_unsigned_t<T> U;
  for (size_t b = 0; b < sizeof(T) * 8; b++) for (int d = -2; d <= 2; d++) { U x = ((U)1 << b) + d; r.insert((T)x); r.insert((T)(0 - x)); }
  for (size_t b = 7; b < sizeof(T) * 8; b += 7) for (int d = -2; d <= 2; d++) r.insert((T)(((U)1 << b) / 2 + d));
  return std::vector<T>(r.begin(), r.end());
}
template <typename T> static void Basic(const S& name) {
  if (!Mine("basic/" + name)) return;
  const auto v = Bounds<T>();
  for (T a : v) {
    S s = SerializeBasicValue<T>(a), o;
    for (int i = sizeof(T) - 1; i >= 0; i--) o += (char)((uint64_t)a >> (8 * i));
    if (s != o) Bad("SerializeBasicValue of " + std::to_string(a) + " is " + Show(s));
    if (DeserializeBasicValue<T>(Box(s)) != a) Bad("DeserializeBasicValue of " + Show(s));
    for (size_t n = 0; n < sizeof(T); n++) if (DeserializeBasicValue<T>(Box(s.substr(0, n))) != 0) Bad("a short basic value is not zero");
    steps++;
  }
  for (T a : v) for (T b : v) {
    std::vector<T> x = {a, b};
    S s = SerializeBasicVector<T>(x);
    if (DeserializeBasicVector<T>(Box(s)) != x) Bad("basic vector of " + std::to_string(a) + "," + std::to_string(b));
    for (bool z : {false, true}) {
      if (z && std::is_unsigned<T>::value && (a > std::numeric_limits<T>::max() / 2 || b > std::numeric_limits<T>::max() / 2)) continue;
      S d = SerializeIntVectorDelta<T>(x, z);
      if (DeserializeIntVectorDelta<T>(Box(d), z) != x) { Bad("IntVectorDelta of " + std::to_string(a) + "," + std::to_string(b) + (z ? " with zigzag" : "") + " through " + Show(d)); return; }
      steps++;
    }
  }
  std::vector<T> x;
  for (int i = 0; i < 5; i++) { S s = SerializeBasicVector<T>(x) + S(i % sizeof(T), 'z'); if (DeserializeBasicVector<T>(Box(s)) != x) Bad("a partial last element is not omitted"); x.push_back(v[i]); }
}
static void Serial(bool th) {
  Basic<int8_t>("int8"); Basic<uint8_t>("uint8"); Basic<int16_t>("int16"); Basic<uint16_t>("uint16");
  Basic<int32_t>("int32"); Basic<uint32_t>("uint32"); Basic<int64_t>("int64"); Basic<uint64_t>("uint64");
  if (Mine("varnum")) {
    for (uint64_t n : Bounds<uint64_t>()) {
      char b[16];
      size_t w = WriteVarNum(b, n);
      if (S(b, w) != ONum(n)) Bad("WriteVarNum of " + std::to_string(n));
      if (SizeVarNum(n) != w) Bad("SizeVarNum of " + std::to_string(n));
      uint64_t m = 0;
      Box x(S(b, w));
      if (ReadVarNum(x.p.get(), w, &m) != w || m != n) Bad("ReadVarNum of " + std::to_string(n));
      if (ReadVarNum(x.p.get(), &m) != w || m != n) Bad("unlimited ReadVarNum of " + std::to_string(n));
      if (IntToStrDelta(n, false) != ONum(n) || StrToIntDelta(x, false) != n) Bad("IntToStrDelta of " + std::to_string(n));
      S z = IntToStrDelta(n, true);
      if (StrToIntDelta(Box(z), true) != n) Bad("IntToStrDelta with zigzag of " + std::to_string((int64_t)n) + " through " + Show(z) + " is " + std::to_string((int64_t)StrToIntDelta(Box(z), true)));
      for (size_t l = 1; l <= 8; l++) {
        S f = IntToStrBigEndian(n, l);
        uint64_t k = l == 8 ? n : n & ((1ULL << (l * 8)) - 1);
        if (f.size() != l || StrToIntBigEndian(Box(f)) != k) Bad("IntToStrBigEndian of " + std::to_string(n) + " in " + std::to_string(l));
        WriteFixNum(b, n, l);
        if (ReadFixNum(b, l) != k || S(b, l) != f) Bad("WriteFixNum of " + std::to_string(n));
      }
      for (size_t l = 0; l < w; l++) { Box y(S(x).substr(0, l)); size_t r = ReadVarNum(y.p.get(), l, &m); if (r > l) Bad("ReadVarNum of a part steps beyond it"); }
      steps += 20;
    }
    for (auto& s : All(S("\0\1\x7f\x80\x81\xff", 6), th ? 6 : 5)) { Box x(s); uint64_t m; size_t r = ReadVarNum(x.p.get(), s.size(), &m); if (r > s.size()) Bad("ReadVarNum steps beyond " + Show(s)); StrToIntDelta(x, true); StrToIntBigEndian(x); steps++; }
    for (size_t l = 0; l < 40; l++) { Box x(S(l, '\xff')); uint64_t m; if (ReadVarNum(x.p.get(), l, &m) > l) Bad("ReadVarNum steps beyond 0xff x " + std::to_string(l)); }
  }
  if (Mine("float")) {
    for (double d : {0.0, -0.0, 1.0, -1.5, 1e300, -1e-300, HUGE_VAL, -HUGE_VAL, 3.25, 1e-320}) for (size_t w : {sizeof(float), sizeof(double), sizeof(long double)}) {
      S s = FloatToStrBigEndian(d, w);
      const long double want = w == sizeof(float) ? (long double)(float)d : (long double)d;
      if (s.size() != w || StrToFloatBigEndian(Box(s)) != want) Bad("FloatToStrBigEndian of " + std::to_string(d) + " in " + std::to_string(w));
      if (SerializeBasicValue<double>(d) != FloatToStrBigEndian(d, 8)) Bad("SerializeBasicValue of a double");
      if (DeserializeBasicValue<double>(Box(SerializeBasicValue<double>(d))) != d) Bad("basic double");
    }
    for (int l = 0; l < 20; l++) for (char c : S("\0\x7f\xff", 3)) StrToFloatBigEndian(Box(S(l, c)));
  }
  std::vector<S> parts = All(S("\0a\x80\xff", 4), 2);
  for (auto& s : Sizes()) parts.push_back(s);
  for (size_t i = 0; i < parts.size(); i++) {
    if (!Mine("pair/" + std::to_string(i))) continue;
    for (auto& b : parts) {
      const S& a = parts[i];
      S s = SerializeStrPair(a, b);
      if (s != ONum(a.size()) + a + ONum(b.size()) + b) Bad("SerializeStrPair of " + Show(a) + "," + Show(b));
      Box x(s);
      SV p, q;
      DeserializeStrPair(x, &p, &q);
      if (p != a || q != b) Bad("DeserializeStrPair of " + Show(a) + "," + Show(b));
      if (GetFirstFromSerializedStrPair(x) != a) Bad("GetFirstFromSerializedStrPair of " + Show(a) + "," + Show(b));
      std::vector<S> v = {a, b, a};
      S t = SerializeStrVector(v);
      if (DeserializeStrVector(Box(t)) != v) Bad("StrVector of " + Show(a) + "," + Show(b));
      std::map<S, S> m = {{a, b}, {b, a}, {"k", ""}};
      if (DeserializeStrMap(Box(SerializeStrMap(m))) != m) Bad("StrMap of " + Show(a) + "," + Show(b));
      // Any cut is decoded within its bounds.
      if (s.size() < 40) for (size_t l = 0; l < s.size(); l++) {
        Box c(s.substr(0, l));
        DeserializeStrPair(c, &p, &q);
        if (S(p).size() + S(q).size() > l || S(GetFirstFromSerializedStrPair(c)).size() > l) Bad("a cut pair has too much");
        Box d(t.substr(0, l));
        auto w = DeserializeStrVector(d);
        DeserializeStrMap(d);
        for (size_t k = 0; k < w.size(); k++) if (w[k] != v[k]) Bad("a cut vector has other elements");
        steps++;
      }
      steps += 5;
    }
  }
  std::vector<S> wild = All(S("\0\1\2\x7f\x80\x81\xff", 7), th ? 5 : 4);
  for (const char* tail : {"", "a", "\x01z"}) for (int n = 1; n < 12; n++) { wild.push_back(S(n, '\xff') + "\x7f" + tail); wild.push_back("\1a" + S(n, '\xff') + "\x7f" + tail); wild.push_back(S("\x81") + S(n, '\x80') + S(1, 0) + tail); wild.push_back(S("\1a\x81") + S(n, '\x80') + S(1, 0) + tail); }
  for (size_t part = 0; part < 8; part++) {
    if (!Mine("wild/" + std::to_string(part))) continue;
    for (size_t i = part; i < wild.size(); i += 8) {
      Box x(wild[i]);
      SV p, q;
      DeserializeStrPair(x, &p, &q);
      if (p.size() + q.size() > wild[i].size()) Bad("DeserializeStrPair of " + Show(wild[i]) + " gives " + std::to_string(p.size()) + " and " + std::to_string(q.size()) + " bytes");
      S a(p), b(q), f(GetFirstFromSerializedStrPair(x));
      size_t n = 0;
      for (auto& e : DeserializeStrVector(x)) n += e.size();
      if (n > wild[i].size()) Bad("DeserializeStrVector of " + Show(wild[i]));
      for (auto& e : DeserializeStrMap(x)) n += e.first.size();
      DeserializeIntVectorDelta<int32_t>(x, true);
      DeserializeIntVectorDelta<uint64_t>(x, false);
      DeserializeBasicVector<int32_t>(x);
      DBMUpdateLoggerMQ::UpdateLog op;
      for (const char* magic : {"", "\xa1", "\xa2", "\xa3", "\xa4"}) { Box y(magic + wild[i]); Status s = DBMUpdateLoggerMQ::ParseUpdateLog(y, &op); if (s == Status::SUCCESS) { S k(op.key), v(op.value); if (k.size() + v.size() > wild[i].size()) Bad("ParseUpdateLog of " + Show(magic + wild[i])); } }
      steps += 12;
    }
  }
}
// ---- Texts.
static S OBase64(const S& s) {
  static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  S r;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t n = 0;
    size_t k = std::min<size_t>(3, s.size() - i);
    for (size_t j = 0; j < 3; j++) n = n << 8 | (j < k ? (unsigned char)s[i + j] : 0);
    for (size_t j = 0; j < 4; j++) r += j <= k ? t[n >> (18 - 6 * j) & 63] : '=';
  }
  return r;
}
static void Texts(bool th) {
  // The alphabet has a representative of each class that an encoder distinguishes.
  const S alpha("\0\a\n\t\r\\x07a8 %+=\x1b\x7f\x80\xff", 18);
  std::vector<S> in = All(alpha, 3);
  for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) in.push_back(S(1, a) + S(1, b));
  for (auto& s : Sizes()) in.push_back(s);
  for (int part = 0; part < 16; part++) {
    if (!Mine("text/" + std::to_string(part))) continue;
    for (size_t i = part; i < in.size(); i += 16) {
      const S& s = in[i];
      Box x(s);
      for (bool e : {false, true}) {
        S t = StrEscapeC(x, e);
        for (unsigned char c : t) if (c < ' ' || c == 0x7f || (e && c >= 0x80)) { Bad("StrEscapeC of " + Show(s) + " has a control character"); break; }
        if (StrUnescapeC(Box(t)) != s) Bad("StrEscapeC of " + Show(s) + " is " + Show(t) + ", which gives " + Show(StrUnescapeC(t)));
      }
      S b = StrEncodeBase64(x);
      if (b != OBase64(s)) Bad("StrEncodeBase64 of " + Show(s) + " is " + b);
      if (StrDecodeBase64(Box(b)) != s) Bad("StrDecodeBase64 of " + b + " is " + Show(StrDecodeBase64(b)));
      S u = StrEncodeURL(x);
      for (char c : u) if (!isalnum((unsigned char)c) && !strchr("%_-.~", c)) Bad("StrEncodeURL of " + Show(s) + " is " + u);
      if (StrDecodeURL(Box(u)) != s) Bad("StrDecodeURL of " + u);
      S v = StrTrimForTSV(x), w = StrTrimForTSV(x, true);
      for (unsigned char c : v) if (c < ' ' || c == 0x7f) Bad("StrTrimForTSV of " + Show(s));
      for (unsigned char c : w) if ((c < ' ' && c != '\t') || c == 0x7f) Bad("StrTrimForTSV keeping tabs of " + Show(s));
      if (v.size() != s.size()) Bad("StrTrimForTSV changes the size of " + Show(s));
      StrUnescapeC(x); StrDecodeBase64(x); StrDecodeURL(x);
      // Case and spaces.
      S lo = Low(s), up = s;
      for (auto& c : up) if (c >= 'a' && c <= 'z') c -= 32;
      S m1 = s, m2 = s;
      StrLowerCase(&m1); StrUpperCase(&m2);
      if (StrLowerCase(x) != lo || m1 != lo || StrUpperCase(x) != up || m2 != up) Bad("case conversion of " + Show(s));
      size_t l = 0, r = s.size();
      while (l < r && (unsigned char)s[l] <= ' ') l++;
      while (l < r && (unsigned char)s[r - 1] <= ' ') r--;
      if (StrStripSpace(x) != s.substr(l, r - l)) Bad("StrStripSpace of " + Show(s));
      size_t n = s.size();
      while (n > 0 && (s[n - 1] == '\r' || s[n - 1] == '\n')) n--;
      S m3 = s;
      StrStripLine(&m3);
      if (StrStripLine(x) != s.substr(0, n) || m3 != s.substr(0, n)) Bad("StrStripLine of " + Show(s));
      S sq;
      for (size_t k = l; k < r; k++) if ((unsigned char)s[k] > ' ' || (unsigned char)s[k - 1] > ' ') sq += s[k];
      if (StrSqueezeAndStripSpace(x) != sq) Bad("StrSqueezeAndStripSpace of " + Show(s));
      steps += 20;
    }
  }
  // What is not an encoding is decoded without harm.
  std::vector<S> syn = All("\\x0%=+Aaz/9", th ? 5 : 4);
  for (int part = 0; part < 8; part++) {
    if (!Mine("syntax/" + std::to_string(part))) continue;
    for (size_t i = part; i < syn.size(); i += 8) { Box x(syn[i]); if (StrUnescapeC(x).size() > syn[i].size() || StrDecodeBase64(x).size() > syn[i].size() + 3 || StrDecodeURL(x).size() > syn[i].size()) Bad("decoding " + Show(syn[i])); steps++; }
  }
  // Unicode: every code point, and bytes of every class.
  for (int part = 0; part < 8; part++) {
    if (!Mine("unicode/" + std::to_string(part))) continue;
    auto one = [&](uint32_t c) {
      S o;
      if (c < 0x80) o = S(1, c);
      else { int n = c < 0x800 ? 1 : c < 0x10000 ? 2 : c < 0x200000 ? 3 : c < 0x4000000 ? 4 : 5; static const int lead[] = {0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc}; o = S(1, lead[n] | c >> (6 * n)); for (int i = n - 1; i >= 0; i--) o += (char)(0x80 | (c >> (6 * i) & 0x3f)); }
      std::vector<uint32_t> v = {c, 'a', c};
      S u = ConvertUCS4ToUTF8(v);
      if (u != o + "a" + o) Bad("ConvertUCS4ToUTF8 of " + std::to_string(c) + " is " + Show(u));
      if (ConvertUTF8ToUCS4(Box(u)) != v) Bad("ConvertUTF8ToUCS4 of " + Show(u));
      std::wstring w = {(wchar_t)c, L'a', (wchar_t)c};
      if (ConvertWideToUTF8(w) != u || ConvertUTF8ToWide(Box(u)) != w) Bad("wide strings of " + std::to_string(c));
      steps++;
    };
    for (uint32_t c = part; c < 0x30000; c += 8) one(c);
    for (uint32_t c = 0x30000 + part * 97; c < 0x80000000 - 2000; c += 8 * 9973) one(c);
    for (uint32_t c : {0x10ffffu, 0x110000u, 0x1fffffu, 0x200000u, 0x3ffffffu, 0x4000000u, 0x7fffffffu}) one(c);
  }
  std::vector<S> utf = All(S("a\x80\xbf\xc0\xc2\xe0\xe3\xf0\xf4\xf8\xfc\xfe\xff", 13), th ? 5 : 4);
  for (int part = 0; part < 8; part++) {
    if (!Mine("utf8/" + std::to_string(part))) continue;
    for (size_t i = part; i < utf.size(); i += 8) { Box x(utf[i]); auto v = ConvertUTF8ToUCS4(x); auto w = ConvertUTF8ToWide(x); if (v.size() > utf[i].size() || v.size() != w.size()) Bad("decoding " + Show(utf[i])); steps++; }
  }
  // Numbers.
  std::vector<S> num = All("019-+ a.", th ? 5 : 4);
  for (const char* x : {"9223372036854775807", "-9223372036854775807", "-9223372036854775808", "18446744073709551615"}) num.push_back(x);
  for (int part = 0; part < 8; part++) {
    if (!Mine("number/" + std::to_string(part))) continue;
    for (size_t i = part; i < num.size(); i += 8) {
      const S& s = num[i];
      Box x(s);
      bool digit = false;
      { size_t k = 0; while (k < s.size() && s[k] == ' ') k++; if (k < s.size() && (s[k] == '-' || s[k] == '+')) k++; while (k < s.size() && s[k] == ' ') k++; digit = k < s.size() && isdigit((unsigned char)s[k]); }
      if (s.size() < 19 && StrToInt(x, -77) != (digit ? OInt(s) : -77)) Bad("StrToInt of " + Show(s));
      StrToIntMetric(x); StrToIntOct(x); StrToDouble(x); StrToBool(x); StrToIntOrBool(x);
      steps++;
    }
    if (part == 0) {
      for (int64_t n : Bounds<int64_t>()) { if (StrToInt(ToString(n)) != n) Bad("ToString of " + std::to_string(n)); S m = SPrintF("%llx", (long long)n); if (StrToIntHex(m) != (uint64_t)n) Bad("StrToIntHex of " + m); m = SPrintF("%llo", (long long)n); if (StrToIntOct(m) != (uint64_t)n) Bad("StrToIntOct of " + m); if (n > INT64MIN / 2 && n < INT64MAX / 2 && std::llabs(n) < (1LL << 53) && StrToIntMetric(ToString(n)) != n) Bad("StrToIntMetric of " + std::to_string(n)); }
      for (int k = 1; k < 7; k++) for (int bin : {0, 1}) { S t = "3" + S(1, "?kmgtpe"[k]) + (bin ? "i" : ""); int64_t w = 3; for (int j = 0; j < k; j++) w *= bin ? 1024 : 1000; if (StrToIntMetric(t) != w) Bad("StrToIntMetric of " + t); }
      for (double d : {0.0, 0.5, -0.25, 1234.0, 1e6, -123456.75}) if (StrToDouble(ToString(d)) != d) Bad("StrToDouble of " + ToString(d));
      const SV none;
      StrToInt(none); StrToIntMetric(none); StrToIntOct(none); StrToIntHex(none); StrToDouble(none); StrToIntBigEndian(none); StrToBool(none); StrToIntOrBool(none);
      for (int n : {0, 1, 30, 31, 32, 60, 63, 64, 65, 127, 128, 129, 300, 1000}) {
        S a(n, 'y'), p = SPrintF("%s|%20s|%-3s|%.5s", a.c_str(), a.c_str(), a.c_str(), a.c_str());
        S pad(n < 20 ? 20 - n : 0, ' '), pad3(n < 3 ? 3 - n : 0, ' ');
        if (p != a + "|" + pad + a + "|" + a + pad3 + "|" + a.substr(0, 5)) Bad("SPrintF of a string of " + std::to_string(n) + " characters with a width is " + Show(p));
        S q = SPrintF("%0*d", 3, 7);
        (void)q;
      }
    }
  }
  // Splitting and joining.
  std::vector<S> sp = All("ab,;", th ? 6 : 5);
  for (int part = 0; part < 8; part++) {
    if (!Mine("split/" + std::to_string(part))) continue;
    for (size_t i = part; i < sp.size(); i += 8) {
      const S& s = sp[i];
      Box x(s);
      for (bool skip : {false, true}) {
        auto cut = [&](std::function<size_t(size_t)> hit) {
          std::vector<S> r;
          size_t from = 0, k = 0;
          while (true) {
            size_t l = k < s.size() ? hit(k) : 0;
            if (k >= s.size() || l) { S e = s.substr(from, k - from); if (!skip || !e.empty()) r.push_back(e); if (k >= s.size()) break; k += l; from = k; } else k++;
          }
          return r;
        };
        auto one = [&](size_t k) -> size_t { return s[k] == ','; };
        auto two = [&](size_t k) -> size_t { return s.compare(k, 2, ",;") == 0 ? 2 : 0; };
        auto any = [&](size_t k) -> size_t { return s[k] == ',' || s[k] == ';'; };
        if (StrSplit(x, ',', skip) != cut(one)) Bad("StrSplit of " + Show(s));
        if (StrSplit(x, ",", skip) != cut(one)) Bad("StrSplit by a string of " + Show(s));
        if (StrSplit(x, ",;", skip) != cut(two)) Bad("StrSplit by two characters of " + Show(s));
        if (StrSplitAny(x, ",;", skip) != cut(any)) Bad("StrSplitAny of " + Show(s));
        if (!skip && StrJoin(cut(one), ",") != s) Bad("StrJoin of the parts of " + Show(s));
      }
      for (const char* from : {"a", "ab", ",", ",;a"}) for (const char* to : {"", "b", "aa"}) {
        S o;
        for (size_t k = 0; k < s.size();) if (s.compare(k, strlen(from), from) == 0) { o += to; k += strlen(from); } else o += s[k++];
        if (StrReplace(x, from, to) != o) Bad("StrReplace of " + Show(s));
      }
      S rc = s, oc;
      StrReplaceCharacters(&rc, "a,;", "bx");
      for (char c : s) { if (c == 'a') oc += 'b'; else if (c == ',') oc += 'x'; else if (c != ';') oc += c; }
      if (rc != oc) Bad("StrReplaceCharacters of " + Show(s) + " is " + Show(rc));
      steps += 25;
    }
  }
}
// ---- Searches.
static void Searches(bool th) {
  std::vector<S> text = All(S("ab\xff\0", 4), th ? 6 : 5), pat = All(S("ab\xff\0", 4), 3);
  for (auto& t : All("ab", th ? 10 : 8)) if (t.size() > 6) text.push_back(t);
  for (auto& p : All("ab", 5)) if (p.size() > 3) pat.push_back(p);
  std::function<int32_t(SV, SV)> fs[] = {StrSearch, StrSearchDoubleLoop, StrSearchMemchr, StrSearchMemmem, StrSearchKMP, StrSearchBM, StrSearchRK, StrSearchZ};
  const char* names[] = {"StrSearch", "DoubleLoop", "Memchr", "Memmem", "KMP", "BM", "RK", "Z"};
  std::function<std::vector<int32_t>(SV, SV, size_t)> ws[] = {StrSearchWhole, StrSearchWholeKMP, StrSearchWholeBM, StrSearchWholeRK};
  for (int part = 0; part < 32; part++) {
    if (!Mine("search/" + std::to_string(part))) continue;
    for (size_t i = part; i < text.size(); i += 32) {
      const S& t = text[i];
      Box x(t);
      for (auto& p : pat) {
        Box y(p);
        const size_t at = t.find(p);
        const int want = at == S::npos ? -1 : (int)at;
        for (int f = 0; f < 8; f++) if (fs[f](x, y) != want) Bad(S(names[f]) + ": searching " + Show(t) + " for " + Show(p) + " gives " + std::to_string(fs[f](x, y)));
        std::vector<int32_t> all;
        for (size_t k = 0; k + std::max<size_t>(1, p.size()) <= t.size(); k++) if (t.compare(k, p.size(), p) == 0) all.push_back(k);
        for (size_t max : {0, 1, 2}) {
          std::vector<int32_t> w = all;
          if (max && w.size() > max) w.resize(max);
          for (int f = 0; f < 4; f++) { auto g = ws[f](x, y, max); if (g != w) Bad("StrSearchWhole" + S(f == 0 ? "" : f == 1 ? "KMP" : f == 2 ? "BM" : "RK") + ": searching " + Show(t) + " for " + Show(p) + " gives " + Show(g) + " and not " + Show(w)); }
        }
        if (StrContains(x, y) != (want >= 0)) Bad("StrContains of " + Show(t) + " and " + Show(p));
        if (StrBeginsWith(x, y) != (t.compare(0, p.size(), p) == 0)) Bad("StrBeginsWith of " + Show(t) + " and " + Show(p));
        if (StrEndsWith(x, y) != (t.size() >= p.size() && t.compare(t.size() - p.size(), S::npos, p) == 0)) Bad("StrEndsWith of " + Show(t) + " and " + Show(p));
        steps += 25;
      }
      // Batches.
      std::vector<S> ps = {"a", "ab", "\xff", "bb", "aab"};
      for (size_t max : {0, 1}) {
        auto a = StrSearchBatch(t, ps, max), b = StrSearchBatchKMP(t, ps, max), c = StrSearchBatchBM(t, ps, max), d = StrSearchBatchRK(t, ps, max);
        for (size_t k = 0; k < ps.size(); k++) { auto w = StrSearchWhole(t, ps[k], max); if (a[k] != w || b[k] != w || c[k] != w || d[k] != w) Bad("a batch search of " + Show(t) + " for " + Show(ps[k])); }
      }
    }
  }
  std::vector<S> wt = All("aA -_", 6 - !th), wp = All("aA-", 3);
  for (int part = 0; part < 16; part++) {
    if (!Mine("word/" + std::to_string(part))) continue;
    for (size_t i = part; i < wt.size(); i += 16) {
      const S& t = wt[i];
      Box x(t);
      for (auto& p : wp) {
        Box y(p);
        auto find = [&](const S& t, const S& p, bool word) {
          for (size_t k = 0; k + p.size() <= t.size(); k++) {
            if (t.compare(k, p.size(), p) != 0) continue;
            if (!word) return (int)k;
            auto w = [](char c) { return isalnum((unsigned char)c); };
            if (k > 0 && w(t[k - 1]) && w(p[0])) continue;
            if (k + p.size() < t.size() && w(t[k + p.size()]) && w(p.back())) continue;
            return (int)k;
          }
          return -1;
        };
        if (StrCaseSearch(x, y) != find(Low(t), Low(p), false)) Bad("StrCaseSearch of " + Show(t) + " for " + Show(p));
        if (!p.empty()) {
          if (StrWordSearch(x, y) != find(t, p, true)) Bad("StrWordSearch of " + Show(t) + " for " + Show(p) + " gives " + std::to_string(StrWordSearch(x, y)));
          if (StrCaseWordSearch(x, y) != find(Low(t), Low(p), true)) Bad("StrCaseWordSearch of " + Show(t) + " for " + Show(p) + " gives " + std::to_string(StrCaseWordSearch(x, y)));
        }
        if (StrCaseContains(x, y) != (StrCaseSearch(x, y) >= 0) || StrWordContains(x, y) != (StrWordSearch(x, y) >= 0) || StrCaseWordContains(x, y) != (StrCaseWordSearch(x, y) >= 0)) Bad("StrContains of " + Show(t) + " for " + Show(p));
        std::vector<S> ps = {p, "AA"}, lp = {Low(p), "aa"};
        auto any = [&](auto f) { return f(t, ps[0]) || f(t, ps[1]); };
        if (StrContainsBatch(t, ps) != any([](SV a, SV b) { return StrContains(a, b); }) || StrCaseContainsBatch(t, ps) != any([](SV a, SV b) { return StrCaseContains(a, b); }) ||
            StrWordContainsBatch(t, ps) != any([](SV a, SV b) { return StrWordContains(a, b); }) || StrCaseWordContainsBatch(t, ps) != any([](SV a, SV b) { return StrCaseWordContains(a, b); }) || StrCaseWordContainsBatchLower(t, lp) != StrCaseWordContainsBatch(t, ps)) Bad("a batch of " + Show(t) + " for " + Show(p));
        if (Sgn(StrCaseCompare(x, y)) != OLex(Low(t), Low(p))) Bad("StrCaseCompare of " + Show(t) + " and " + Show(p));
        if (i < 800) {
          std::vector<std::vector<int>> d(t.size() + 1, std::vector<int>(p.size() + 1));
          for (size_t a = 0; a <= t.size(); a++) for (size_t b = 0; b <= p.size(); b++) d[a][b] = !a ? b : !b ? a : std::min({d[a - 1][b] + 1, d[a][b - 1] + 1, d[a - 1][b - 1] + (t[a - 1] != p[b - 1])});
          if (EditDistanceLev(t, p) != d[t.size()][p.size()]) Bad("EditDistanceLev of " + Show(t) + " and " + Show(p));
        }
        steps += 15;
      }
    }
  }
}
// ---- Hash functions.
static uint64_t OMurmur(const S& s, uint64_t seed) {
  const uint64_t m = 0xc6a4a7935bd1e995ULL;
  uint64_t h = seed ^ (s.size() * m);
  size_t i = 0;
  auto word = [&](size_t n) { uint64_t k = 0; for (size_t j = 0; j < n; j++) k |= (uint64_t)(unsigned char)s[i + j] << (8 * j); return k; };
  for (; i + 8 <= s.size(); i += 8) { uint64_t k = word(8) * m; k ^= k >> 47; k *= m; h = (h * m) ^ k; }
  if (i < s.size()) { h ^= word(s.size() - i); h *= m; }
  h ^= h >> 47; h *= m; h ^= h >> 47;
  return h;
}
static void Hashes(bool th) {
  typedef std::function<uint32_t(const void*, size_t, bool, uint32_t)> Cont;
  struct H { const char* name; Cont cont; std::function<uint32_t(SV)> whole; std::function<uint32_t(const S&)> oracle; uint32_t seed; };
  auto adler = [](uint32_t mod, int bits, uint32_t init) { return [=](const S& s) { uint32_t a = init & ((1u << bits) - 1), b = init >> bits; for (unsigned char c : s) { a = (a + c) % mod; b = (b + a) % mod; } return b << bits | a; }; };
  auto sum = [](uint32_t mod) { return [=](const S& s) { uint32_t a = 0; for (unsigned char c : s) a = (a + c) % mod; return a; }; };
  // Bit by bit; "ref" is for reflected polynomials.
  auto crc = [](int width, uint32_t poly, bool ref, uint32_t init, uint32_t out) { return [=](const S& s) {
    uint32_t c = init, top = 1u << (width - 1), mask = width == 32 ? 0xffffffffu : (1u << width) - 1;
    for (unsigned char ch : s) for (int i = 0; i < 8; i++) {
      if (ref) { uint32_t bit = (c ^ (ch >> i)) & 1; c >>= 1; if (bit) c ^= poly; }
      else { uint32_t bit = ((c & top) ? 1 : 0) ^ (ch >> (7 - i) & 1); c = (c << 1) & mask; if (bit) c ^= poly; }
    }
    return c ^ out; }; };
  const std::vector<H> hs = {
      {"Checksum6", HashChecksum6Continuous, [](SV s) { return HashChecksum6(s); }, sum(61), 0}, {"Checksum8", HashChecksum8Continuous, [](SV s) { return HashChecksum8(s); }, sum(251), 0},
      {"Adler6", HashAdler6Continuous, [](SV s) { return HashAdler6(s); }, adler(7, 3, 1), 1}, {"Adler8", HashAdler8Continuous, [](SV s) { return HashAdler8(s); }, adler(13, 4, 1), 1},
      {"Adler16", HashAdler16Continuous, [](SV s) { return HashAdler16(s); }, adler(251, 8, 1), 1}, {"Adler32", HashAdler32Continuous, [](SV s) { return HashAdler32(s); }, adler(65521, 16, 1), 1},
      {"CRC4", HashCRC4Continuous, [](SV s) { return HashCRC4(s); }, crc(4, 0xc, true, 0, 0), 0}, {"CRC8", HashCRC8Continuous, [](SV s) { return HashCRC8(s); }, crc(8, 0x07, false, 0, 0), 0},
      {"CRC16", HashCRC16Continuous, [](SV s) { return HashCRC16(s); }, crc(16, 0x1021, false, 0, 0), 0}, {"CRC32", HashCRC32Continuous, [](SV s) { return HashCRC32(s); }, crc(32, 0xedb88320, true, 0xffffffff, 0xffffffff), 0xffffffff}};
  std::vector<S> in = All(S("\0a\x80\xff", 4), 4);
  for (auto& s : Sizes()) in.push_back(s);
  for (size_t n = 5; n < 40; n++) { S s; for (size_t i = 0; i < n; i++) s += (char)(i * 37 + n * 11); in.push_back(s); }
  for (size_t n : {4095, 4096, 4097, 8193, 70000}) in.push_back(S(n, '\xff'));
  for (auto& h : hs) for (int part = 0; part < 4; part++) {
    if (!Mine("hash/" + S(h.name) + "/" + std::to_string(part))) continue;
    for (size_t i = part; i < in.size(); i += 4) {
      const S& s = in[i];
      Box x(s);
      const uint32_t want = h.oracle(s);
      const void* buf = s.empty() ? (const void*)"" : x.p.get();
      if (h.whole(SV((const char*)buf, s.size())) != want) Bad("Hash" + S(h.name) + " of " + Show(s) + " is " + std::to_string(h.whole(x)) + " and not " + std::to_string(want));
      for (size_t cut = 0; cut <= s.size(); cut += s.size() > 64 ? s.size() / 13 + 1 : 1) {
        Box a(s.substr(0, cut)), b(s.substr(cut));
        auto p = [](Box& q) -> const void* { return q.n ? (const void*)q.p.get() : (const void*)""; };
        uint32_t v = h.cont(p(b), b.n, true, h.cont(p(a), a.n, false, h.seed));
        if (v != want) Bad("Hash" + S(h.name) + " of " + Show(s) + " cut at " + std::to_string(cut) + " is " + std::to_string(v) + " and not " + std::to_string(want));
        const S n = h.name;
        if (n == "Checksum6" && HashChecksum6Pair(p(a), a.n, p(b), b.n) != want) Bad("HashChecksum6Pair of " + Show(s));
        if (n == "Checksum8" && HashChecksum8Pair(p(a), a.n, p(b), b.n) != want) Bad("HashChecksum8Pair of " + Show(s));
        steps++;
      }
      // The address of the bytes does not matter.
      for (int off = 1; off < 4 && s.size() < 200; off++) { Box y(S(off, 'p') + s); if (h.whole(SV(y.p.get() + off, s.size())) != want) Bad("Hash" + S(h.name) + " of " + Show(s) + " at another alignment"); steps++; }
    }
  }
  if (Mine("hash/64")) {
    for (auto& s : in) {
      Box x(s);
      uint64_t f = 14695981039346656037ULL;
      for (unsigned char c : s) f = (f ^ c) * 109951162811ULL;
      SV v(s.empty() ? "" : x.p.get(), s.size());
      if (HashFNV(v) != f) Bad("HashFNV of " + Show(s));
      for (uint64_t seed : {0ULL, 1ULL, 19780211ULL, ~0ULL}) if (HashMurmur(v, seed) != OMurmur(s, seed)) Bad("HashMurmur of " + Show(s));
      for (int off = 1; off < 8 && s.size() < 200; off++) { Box y(S(off, 'p') + s); if (HashMurmur(SV(y.p.get() + off, s.size()), 3) != OMurmur(s, 3)) Bad("HashMurmur at another alignment"); }
      steps += 10;
    }
  }
}
// ---- Compressors.
static void Compressors(bool th) {
  struct C { S name; std::function<std::unique_ptr<Compressor>()> make; bool detects; };
  std::vector<C> cs;
  auto add = [&](const S& n, bool det, std::function<std::unique_ptr<Compressor>()> f) { if (f()->IsSupported()) cs.push_back({n, f, det}); };
  add("dummy", false, [] { return std::make_unique<DummyCompressor>(); });
  add("dummy-crc", true, [] { return std::make_unique<DummyCompressor>(true); });
  for (int level : {0, 3, 6, 9}) {
    add("zlib-none" + std::to_string(level), false, [=] { return std::make_unique<ZLibCompressor>(level, ZLibCompressor::METADATA_NONE); });
    add("zlib-adler" + std::to_string(level), true, [=] { return std::make_unique<ZLibCompressor>(level, ZLibCompressor::METADATA_ADLER32); });
    add("zlib-crc" + std::to_string(level), true, [=] { return std::make_unique<ZLibCompressor>(level, ZLibCompressor::METADATA_CRC32); });
    add("zstd" + std::to_string(level), false, [=] { return std::make_unique<ZStdCompressor>(level); });
    add("lzma-none" + std::to_string(level), false, [=] { return std::make_unique<LZMACompressor>(level, LZMACompressor::METADATA_NONE); });
    add("lzma-crc" + std::to_string(level), true, [=] { return std::make_unique<LZMACompressor>(level, LZMACompressor::METADATA_CRC32); });
  }
  add("lz4", false, [] { return std::make_unique<LZ4Compressor>(); });
  for (const char* key : {"", "k", "0123456789abcdef", "0123456789abcdef0123456789", "0123456789abcdef0123456789abcdef", "0123456789abcdef0123456789abcdefXYZ"}) {
    add("rc4-" + std::to_string(strlen(key)), false, [=] { return std::make_unique<RC4Compressor>(key, 123); });
    add("aes-" + std::to_string(strlen(key)), false, [=] { return std::make_unique<AESCompressor>(key, 123); });
  }
  std::vector<S> in = All(S("\0a\xff", 3), 4);
  for (size_t n = 5; n < 80; n++) { S s; for (size_t i = 0; i < n; i++) s += (char)(i * 37 + n * 11); in.push_back(s); in.push_back(S(n, 'r')); }
  for (auto& s : Sizes()) in.push_back(s);
  for (auto& c : cs) for (int part = 0; part < 4; part++) {
    if (!Mine("compressor/" + c.name + "/" + std::to_string(part))) continue;
    auto z = c.make(), y = z->MakeCompressor();
    for (size_t i = part; i < in.size(); i += 4) {
      const S& s = in[i];
      Box x(s);
      size_t n = 0, m = 0;
      char* p = z->Compress(s.empty() ? (const void*)"" : x.p.get(), s.size(), &n);
      if (!p) { Bad("Compress of " + Show(s) + " fails"); continue; }
      S comp(p, n);
      xfree(p);
      for (auto* d : {z.get(), y.get()}) {
        Box b(comp);
        char* q = d->Decompress(b.n ? (const void*)b.p.get() : (const void*)"", b.n, &m);
        if (!q) { Bad("Decompress of " + Show(s) + " fails"); continue; }
        if (S(q, m) != s) Bad("Decompress of " + Show(s) + " gives " + Show(SV(q, m)));
        xfree(q);
      }
      steps += 3;
      if (s.size() > (c.name == "lz4" ? 0 : 40)) continue;
      // Damage: each cut and each changed byte.
      auto damaged = [&](const S& t, const S& how) {
        Box b(t);
        char* q = y->Decompress(b.n ? (const void*)b.p.get() : (const void*)"", b.n, &m);
        if (q && c.detects && S(q, m) != s) Bad("Decompress of " + Show(s) + " " + how + " gives " + Show(SV(q, m)) + " without an error");
        if (q) { S touch(q, m); xfree(q); }
        steps++;
      };
      for (size_t l = 0; l < comp.size(); l++) damaged(comp.substr(0, l), "cut at " + std::to_string(l));
      for (size_t l = 0; l < comp.size(); l++) for (int bit : {1, 0x80, 0xff}) { S t = comp; t[l] ^= bit; damaged(t, "with byte " + std::to_string(l) + " changed"); }
      damaged(comp + "z", "with a byte added");
    }
    for (auto& s : All(S("\0\1\x80\xff", 4), c.name == "lz4" ? 0 : 4)) { Box b(s); size_t m = 0; char* q = y->Decompress(b.n ? (const void*)b.p.get() : (const void*)"", b.n, &m); if (q) { S t(q, m); xfree(q); } steps++; }
  }
}
// ---- Flat records.
static void Flat(bool th) {
  std::vector<S> parts = All(S("\0\xff\xee", 3), 2);
  for (auto& s : Sizes()) parts.push_back(s);
  const S dir = Scratch();
  auto put = [&](const S& path, const S& data) { FILE* f = fopen(path.c_str(), "wb"); fwrite(data.data(), 1, data.size(), f); fclose(f); };
  auto read = [&](const S& path, size_t buf, std::vector<std::pair<S, int>>* out) {
    PositionalParallelFile f;
    if (f.Open(path, false) != Status::SUCCESS) { Bad("Open"); return Status(Status::APPLICATION_ERROR); }
    FlatRecordReader r(&f, buf);
    Status s;
    SV v;
    FlatRecord::RecordType t;
    while ((s = r.Read(&v, &t)) == Status::SUCCESS) { out->emplace_back(S(v), (int)t); if (out->size() > 100) break; }
    return s;
  };
  for (size_t i = 0; i < parts.size(); i++) {
    if (!Mine("flat/" + std::to_string(i))) continue;
    CleanDir(dir);
    for (size_t j = 0; j < parts.size(); j++) for (int meta : {0, 1}) {
      std::vector<std::pair<S, int>> want = {{parts[i], meta ? FlatRecord::RECORD_METADATA : FlatRecord::RECORD_NORMAL}, {parts[j], FlatRecord::RECORD_NORMAL}, {"end", FlatRecord::RECORD_NORMAL}};
      const S path = dir + "/flat";
      S raw;
      {
        PositionalParallelFile f;
        f.Open(path, true, File::OPEN_TRUNCATE);
        FlatRecord rec(&f);
        std::vector<int64_t> offs;
        for (auto& w : want) { if (rec.Write(w.first, (FlatRecord::RecordType)w.second) != Status::SUCCESS) Bad("Write"); offs.push_back(rec.GetOffset()); raw += S(1, w.second == FlatRecord::RECORD_METADATA ? '\xfe' : '\xff') + ONum(w.first.size()) + w.first; }
        for (size_t k = 0; k < want.size(); k++) if (rec.Read(offs[k]) != Status::SUCCESS || rec.GetData() != want[k].first || rec.GetRecordType() != want[k].second) Bad("FlatRecord::Read of " + Show(want[k].first));
        f.Close();
      }
      for (size_t buf : {0, 1, 9, 10, 64}) {
        std::vector<std::pair<S, int>> got;
        Status s = read(path, buf, &got);
        if (s != Status::NOT_FOUND_ERROR || got != want) Bad("flat records " + Show(parts[i]) + "," + Show(parts[j]) + " with buffer " + std::to_string(buf) + " give " + std::to_string(got.size()) + " records, " + ToString(s));
        steps++;
      }
      // Cuts and changed bytes: the records before the damage, and no more than there are bytes.
      if (raw.size() > 40) continue;
      for (size_t cut = 0; cut < raw.size(); cut++) for (int how : {0, 1, 0x7f, 0xff}) {
        S t = raw;
        if (how) t[cut] ^= how; else t.resize(cut);
        put(path, t);
        std::vector<std::pair<S, int>> got;
        read(path, how == 1 ? 10 : 0, &got);
        size_t n = 0, off = 0;
        for (auto& g : got) n += g.first.size() + 2;
        if (n > t.size()) Bad("a damaged file of flat records gives more than it has");
        for (size_t k = 0; k < want.size(); k++) { off += 2 + want[k].first.size(); if (off <= cut && (k >= got.size() || got[k] != want[k])) Bad("a file of flat records damaged at " + std::to_string(cut) + " loses record " + std::to_string(k)); }
        PositionalParallelFile f;
        f.Open(path, false);
        FlatRecord rec(&f);
        for (size_t o = 0; o < t.size(); o++) { Status s = rec.Read(o); if (s == Status::SUCCESS) { S d(rec.GetData()); if (d.size() + o + 2 > t.size()) Bad("FlatRecord::Read of a damaged file goes beyond the end"); } steps++; }
      }
    }
  }
  // A size far beyond the end.
  if (Mine("flat/huge")) {
    for (auto& n : {S("\x81\x80\x80\x80\x80\x00", 6), S("\xff\xff\xff\xff\x7f"), S(9, '\xff') + "\x7f", S("\x8f\xff\xff\xff\xff\xff\x7f"), S("\x81\xff\xff\xff\xff\xff\xff\xff\xff\x7f"), S("\x80\x7f"), S(20, '\x80')}) for (int before : {0, 1, 20}) {
      S t;
      for (int k = 0; k < before; k++) t += "\xff\x01q";
      t += "\xff" + n + "abc";
      const S path = dir + "/huge";
      put(path, t);
      for (size_t buf : {0, 10}) {
        std::vector<std::pair<S, int>> got;
        Status s = read(path, buf, &got);
        if ((int)got.size() < before || s == Status::SUCCESS) Bad("a file with a wrong size gives " + std::to_string(got.size()) + " records, " + ToString(s));
        size_t bytes = 0;
        for (auto& g : got) bytes += g.first.size();
        if (bytes > t.size()) Bad("a file with a wrong size gives more than it has");
      }
      PositionalParallelFile f;
      f.Open(path, false);
      FlatRecord rec(&f);
      Status s = rec.Read(3 * before);
      if (s == Status::SUCCESS && rec.GetData().size() > t.size()) Bad("FlatRecord::Read goes beyond the end of the file");
      steps++;
    }
  }
}

int main(int argc, char** argv) {
  mc::InitReport(argc, argv);
  const bool th = Thorough();
  deadline = Now() + mc::args().time;
  Serial(th);
  Comparators(th);
  Hashes(th);
  Compressors(th);
  Texts(th);
  Searches(th);
  Flat(th);
  mc::Stat("states", cases);
  mc::Stat("transitions", steps);
  mc::Stat("traces", cases);
  mc::FinishReport();
}
