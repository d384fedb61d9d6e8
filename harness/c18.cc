// C18: encoders, serializers, parsers and basic string functions: round trips, definitions and arbitrary input.
#include <cmath>
#include "vh.h"
#include "tkrzw_str_util.h"
#include "tkrzw_lib_common.h"
#include "tkrzw_sys_config.h"
using namespace vh;
using namespace tkrzw;

// An exactly sized heap copy, so that the address sanitizer sees every access outside the input.
struct Exact {
  char* p; size_t n;
  explicit Exact(std::string_view s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
  std::string_view V() const { return std::string_view(p, n); }
};

static std::string Bytes(Rng& g, size_t max) {
  const size_t n = g.U(max + 1);
  std::string s(n, 0);
  const int mode = (int)g.U(6);
  static const char* sets[] = {"", "ab01", "%+=\\x0 \t\n", "0123456789abcdefABCDEF.+-eE kKmMgGiI", "\x80\xc3\xa9\xff\xe3\x81\x82\xf0\x9f\x98\x80\xfc", "aAzZ@[`{09/:"};
  for (auto& ch : s) { if (mode == 0) ch = (char)g.U(256); else { const size_t l = strlen(sets[mode]); ch = g.P(4) ? 0 : sets[mode][g.U(l)]; } }
  return s;
}
static uint64_t Num(Rng& g) {
  const int b = (int)g.U(65);
  uint64_t v = b == 0 ? 0 : g.Next() >> (64 - b);
  if (g.P(30) && b > 0) v = (b == 64 ? ~0ULL : (1ULL << b)) + g.R(-2, 2);
  return v;
}
#define EQ(key, got, want, what) do { auto _g = (got); auto _w = (want); if (!(_g == _w)) c.Fail(std::string("mismatch:") + key, Fmt("%s: %s", key, (what).c_str())); c.Stat("comparisons"); } while (0)
static std::string D(std::string_view in, std::string_view got, std::string_view want) { return "input " + Show(in, 60) + " gives " + Show(got, 60) + ", want " + Show(want, 60); }
static std::string D(std::string_view in) { return "input " + Show(in, 80); }

static void RoundTrips(Ctx& c, Rng& g) {
  const std::string s = Bytes(g, g.P(90) ? 40 : 700);
  Exact e(s);
  for (bool na : {false, true}) {
    const std::string x = StrEscapeC(e.V(), na);
    for (char ch : x) if ((ch >= 0 && ch < ' ') || ch == 0x7f || (na && (ch & 0x80))) c.Fail("mismatch:StrEscapeC", "unescaped byte in " + Show(x));
    EQ("StrEscapeC", StrUnescapeC(Exact(x).V()), s, D(s, StrUnescapeC(x), s));
  }
  {
    const std::string x = StrEncodeURL(e.V());
    for (unsigned char ch : x) if (!isalnum(ch) && !strchr("_-.~%", ch)) c.Fail("mismatch:StrEncodeURL", "unsafe byte in " + Show(x));
    EQ("StrEncodeURL", StrDecodeURL(Exact(x).V()), s, D(s, x, s));
    std::string up = x;
    for (size_t i = 0; i + 2 < up.size() + 0; i++) if (up[i] == '%') { up[i + 1] = (char)toupper(up[i + 1]); up[i + 2] = (char)toupper(up[i + 2]); }
    EQ("StrDecodeURL", StrDecodeURL(Exact(up).V()), s, D(up));
  }
  {
    static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string want;
    for (size_t i = 0; i < s.size(); i += 3) {
      uint32_t v = 0;
      const size_t n = std::min<size_t>(3, s.size() - i);
      for (size_t j = 0; j < 3; j++) v = v << 8 | (j < n ? (unsigned char)s[i + j] : 0);
      for (size_t j = 0; j < 4; j++) want.push_back(j <= n ? t[v >> (18 - 6 * j) & 63] : '=');
    }
    const std::string x = StrEncodeBase64(e.V());
    EQ("StrEncodeBase64", x, want, D(s, x, want));
    EQ("StrDecodeBase64", StrDecodeBase64(Exact(x).V()), s, D(x, StrDecodeBase64(x), s));
    std::string nl;
    for (size_t i = 0; i < x.size(); i++) { nl.push_back(x[i]); if (g.P(10)) nl.push_back('\n'); }
    EQ("StrDecodeBase64", StrDecodeBase64(Exact(nl).V()), s, D(nl));
  }
  const uint64_t v = Num(g);
  for (size_t w = 1; w <= 8; w++) {
    const uint64_t m = w == 8 ? v : v & ((1ULL << (8 * w)) - 1);
    std::string want;
    for (size_t i = 0; i < w; i++) want.push_back((char)(m >> (8 * (w - 1 - i))));
    EQ("IntToStrBigEndian", IntToStrBigEndian(m, w), want, Fmt("%llu width %zu", (unsigned long long)m, w));
    EQ("StrToIntBigEndian", StrToIntBigEndian(Exact(want).V()), m, Fmt("%llu width %zu", (unsigned long long)m, w));
    char buf[8];
    WriteFixNum(buf, m, w);
    EQ("WriteFixNum", std::string(buf, w), want, Fmt("%llu", (unsigned long long)m));
    EQ("ReadFixNum", ReadFixNum(Exact(want).V().data(), w), m, Fmt("%llu", (unsigned long long)m));
  }
  for (bool zz : {false, true}) {
    const std::string x = IntToStrDelta(v, zz);
    EQ("IntToStrDelta", StrToIntDelta(Exact(x).V(), zz), v, Fmt("%llu zigzag=%d", (unsigned long long)v, zz));
    if (!zz) {
      char buf[16];
      EQ("SizeVarNum", SizeVarNum(v), x.size(), Fmt("%llu", (unsigned long long)v));
      EQ("WriteVarNum", std::string(buf, WriteVarNum(buf, v)), x, Fmt("%llu", (unsigned long long)v));
      uint64_t r = 0;
      EQ("ReadVarNum", ReadVarNum(Exact(x).V().data(), &r), x.size(), Fmt("%llu", (unsigned long long)v));
      EQ("ReadVarNum", r, v, Fmt("%llu", (unsigned long long)v));
      for (size_t k = 0; k < x.size(); k++) EQ("ReadVarNum", ReadVarNum(Exact(x.substr(0, k)).V().data(), k, &r), (size_t)0, Fmt("%llu cut to %zu", (unsigned long long)v, k));
    } else {
      const int64_t sv = (int64_t)v;
      uint64_t small = sv < 0 ? (uint64_t)-(sv + 1) * 2 + 1 : (uint64_t)sv * 2;
      EQ("IntToStrDelta", x, IntToStrDelta(small, false), Fmt("zigzag of %lld", (long long)sv));
    }
  }
  {
    double d; uint64_t b = g.Next(); memcpy(&d, &b, 8);
    if (g.P(50)) d = (double)(int64_t)Num(g) / 7;
    if (d == d) {
      const float f = (float)d;
      EQ("FloatToStrBigEndian", (double)StrToFloatBigEndian(Exact(FloatToStrBigEndian(d, 8)).V()), d, Fmt("%g", d));
      if (f - f == 0) EQ("FloatToStrBigEndian", (float)StrToFloatBigEndian(Exact(FloatToStrBigEndian(f, 4)).V()), f, Fmt("%g", d));
      EQ("FloatToStrBigEndian", (double)StrToFloatBigEndian(Exact(FloatToStrBigEndian((long double)d, sizeof(long double))).V()), d, Fmt("long %g", d));
      EQ("SerializeBasicValue", DeserializeBasicValue<double>(Exact(SerializeBasicValue(d)).V()), d, Fmt("%g", d));
    }
    EQ("SerializeBasicValue", DeserializeBasicValue<uint32_t>(Exact(SerializeBasicValue((uint32_t)v)).V()), (uint32_t)v, Fmt("%u", (unsigned)v));
    EQ("SerializeBasicValue", DeserializeBasicValue<int16_t>(Exact(SerializeBasicValue((int16_t)v)).V()), (int16_t)v, Fmt("%d", (int16_t)v));
    EQ("SerializeBasicValue", SerializeBasicValue<uint64_t>(v), IntToStrBigEndian(v, 8), Fmt("%llu", (unsigned long long)v));
  }
  std::vector<std::string> vec;
  std::map<std::string, std::string> mp;
  for (int i = 0, n = (int)g.U(6); i < n; i++) { vec.push_back(Bytes(g, g.P(90) ? 12 : 400)); mp[Bytes(g, 6)] = Bytes(g, g.P(90) ? 12 : 400); }
  EQ("SerializeStrVector", DeserializeStrVector(Exact(SerializeStrVector(vec)).V()), vec, Fmt("%zu elements", vec.size()));
  EQ("SerializeStrMap", DeserializeStrMap(Exact(SerializeStrMap(mp)).V()), mp, Fmt("%zu elements", mp.size()));
  EQ("MakeStrVectorFromViews", MakeStrVectorFromViews(MakeStrViewVectorFromValues(vec)), vec, Fmt("%zu elements", vec.size()));
  EQ("MakeStrMapFromViews", MakeStrMapFromViews(MakeStrViewMapFromRecords(mp)), mp, Fmt("%zu elements", mp.size()));
  {
    const std::string a = Bytes(g, g.P(90) ? 20 : 20000), b = Bytes(g, 20);
    Exact p(SerializeStrPair(a, b));
    std::string_view x, y;
    DeserializeStrPair(p.V(), &x, &y);
    EQ("SerializeStrPair", x == a && y == b, true, D(a));
    EQ("GetFirstFromSerializedStrPair", GetFirstFromSerializedStrPair(p.V()), std::string_view(a), D(a));
  }
  c.Sig(v);
  c.Sig(s);
}

template <class T> static void VecRT(Ctx& c, Rng& g, const char* name) {
  std::vector<T> v;
  for (int i = 0, n = (int)g.U(9); i < n; i++) {
    T x = (T)Num(g);
    if (g.P(15)) x = g.P(50) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
    v.push_back(x);
  }
  EQ("SerializeBasicVector", DeserializeBasicVector<T>(Exact(SerializeBasicVector(v)).V()), v, std::string(name));
  EQ("SerializeIntVectorDelta", DeserializeIntVectorDelta<T>(Exact(SerializeIntVectorDelta(v, true)).V(), true), v, std::string(name) + " zigzag");
  EQ("SerializeIntVectorDelta", DeserializeIntVectorDelta<T>(Exact(SerializeIntVectorDelta(v, false)).V(), false), v, std::string(name));
  // Deltas of 64-bit and narrower types have the same form.
  std::vector<int64_t> w(v.begin(), v.end());
  if (std::is_signed_v<T>) EQ("SerializeIntVectorDelta", SerializeIntVectorDelta(v, true), SerializeIntVectorDelta(w, true), std::string(name) + " form");
}

static void Unicode(Ctx& c, Rng& g) {
  std::vector<uint32_t> u;
  std::wstring w;
  std::string want;
  for (int i = 0, n = (int)g.U(12); i < n; i++) {
    uint32_t cp = (uint32_t)(Num(g) & 0x7fffffff);
    if (g.P(60)) cp %= 0x110000;
    if (g.P(20)) cp = (uint32_t)g.Pick({0x0, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff});
    u.push_back(cp);
    w.push_back((wchar_t)cp);
    const int len = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : cp < 0x200000 ? 4 : cp < 0x4000000 ? 5 : 6;
    if (len == 1) want.push_back((char)cp);
    else {
      want.push_back((char)((0xff00 >> len & 0xff) | cp >> (6 * (len - 1))));
      for (int k = len - 2; k >= 0; k--) want.push_back((char)(0x80 | (cp >> (6 * k) & 0x3f)));
    }
  }
  const std::string a = ConvertUCS4ToUTF8(u), b = ConvertWideToUTF8(w);
  EQ("ConvertUCS4ToUTF8", a, want, D(a, a, want));
  EQ("ConvertWideToUTF8", b, want, D(a, b, want));
  EQ("ConvertUTF8ToUCS4", ConvertUTF8ToUCS4(Exact(a).V()), u, D(a));
  EQ("ConvertUTF8ToWide", ConvertUTF8ToWide(Exact(a).V()) == w, true, D(a));
  c.Sig(a);
}

static void Garbage(Ctx& c, Rng& g) {
  std::string s = Bytes(g, 60);
  switch (g.U(6)) {  // mutated valid encodings reach further than noise
    case 0: { std::vector<std::string> v; for (int i = 0, n = (int)g.U(4); i < n; i++) v.push_back(Bytes(g, 10)); s = SerializeStrVector(v); break; }
    case 1: s = SerializeStrPair(Bytes(g, 10), Bytes(g, 10)); break;
    case 2: s = StrEncodeURL(s); break;
    case 3: s = StrEncodeBase64(s); break;
    case 4: s = StrEscapeC(s, true); break;
  }
  for (int i = 0, n = (int)g.U(4); i < n && !s.empty(); i++) {
    const size_t p = g.U(s.size());
    switch (g.U(4)) {
      case 0: s[p] = (char)g.U(256); break;
      case 1: s.resize(p); break;
      case 2: s[p] = (char)0xff; break;
      default: s.insert(p, std::string(g.R(1, 11), (char)g.R(0x80, 0xff))); break;
    }
  }
  Exact e(s);
  const std::string_view v = e.V();
  uint64_t n = 0;
  auto within = [&](const char* f, std::string_view x) { if (x.size() && (x.data() < e.p || x.data() + x.size() > e.p + e.n)) c.Fail(std::string("bounds:") + f, std::string(f) + " refers outside the input " + Show(s)); };
  n += StrUnescapeC(v).size() + StrDecodeURL(v).size() + StrDecodeBase64(v).size();
  VCHECK(c, StrUnescapeC(v).size() <= s.size() && StrDecodeURL(v).size() <= s.size() && StrDecodeBase64(v).size() <= s.size() + 3, "mismatch:decoded-size", "a decoded string is longer than its input");
  n += ConvertUTF8ToUCS4(v).size() + ConvertUTF8ToWide(v).size();
  n += DeserializeStrVector(v).size() + DeserializeStrMap(v).size();
  VCHECK(c, DeserializeStrVector(v).size() <= s.size(), "mismatch:DeserializeStrVector", "more elements than bytes");
  std::string_view x, y;
  DeserializeStrPair(v, &x, &y);
  within("DeserializeStrPair", x); within("DeserializeStrPair", y);
  within("GetFirstFromSerializedStrPair", GetFirstFromSerializedStrPair(v));
  n += StrToIntDelta(v, true) + StrToIntDelta(v, false) + StrToIntBigEndian(v) + (StrToFloatBigEndian(v) > 0);
  n += (uint64_t)DeserializeBasicValue<int64_t>(v) + DeserializeBasicValue<uint8_t>(v) + DeserializeBasicVector<int32_t>(v).size();
  n += DeserializeIntVectorDelta<int64_t>(v, true).size() + DeserializeIntVectorDelta<int32_t>(v, true).size() + DeserializeIntVectorDelta<int8_t>(v, true).size() + DeserializeIntVectorDelta<uint64_t>(v, false).size();
  n += (uint64_t)StrToInt(v) + (uint64_t)StrToIntMetric(v) + StrToIntOct(v) + StrToIntHex(v) + (StrToDouble(v) > 0) + StrToBool(v) + (uint64_t)StrToIntOrBool(v);
  n += StrSplitIntoMap(v, ",", "=").size() + StrSqueezeAndStripSpace(v).size() + StrTrimForTSV(v).size();
  // The C++ library itself looks one byte past a pattern that ends with a parenthesis, so patterns are terminated here.
  const std::string rx = s.substr(0, 6);
  if (g.P(20)) n += StrSearchRegex("abc012 xyz", rx) + StrReplaceRegex("abc012 xyz", rx, "[$&]").size();
  c.Sig((uint64_t)n);
  c.Sig(s);
  c.Stat("garbage_inputs");
}

static void Definitions(Ctx& c, Rng& g) {
  const std::string s = Bytes(g, 30);
  Exact e(s);
  const std::string_view v = e.V();
  auto split = [](const std::string& str, const std::string& d, bool any, bool skip) {
    std::vector<std::string> r;
    if (d.empty() && !any) { for (char ch : str) r.push_back(std::string(1, ch)); return r; }
    std::string cur;
    for (size_t i = 0; i < str.size();) {
      if (any ? d.find(str[i]) != std::string::npos : str.compare(i, d.size(), d) == 0) { if (!skip || !cur.empty()) r.push_back(cur); cur.clear(); i += any ? 1 : d.size(); }
      else cur.push_back(str[i++]);
    }
    if (!skip || !cur.empty()) r.push_back(cur);
    return r;
  };
  const std::string dl = g.P(30) ? "" : Bytes(g, 2), d1(1, g.P(70) && !s.empty() ? s[g.U(s.size())] : (char)g.U(256));
  for (bool sk : {false, true}) {
    EQ("StrSplit(char)", StrSplit(v, d1[0], sk), split(s, d1, false, sk), D(s));
    EQ("StrSplit", StrSplit(v, d1, sk), split(s, d1, false, sk), D(s));
    EQ("StrSplit", StrSplit(v, dl, sk), split(s, dl, false, sk), D(s) + " by " + Show(dl));
    EQ("StrSplitAny", StrSplitAny(v, dl + d1, sk), split(s, dl + d1, true, sk), D(s));
  }
  EQ("StrJoin", StrJoin(split(s, d1, false, false), d1), s, D(s) + " by " + Show(d1));
  {
    std::map<std::string, std::string> want;
    for (auto& r : split(s, d1, false, true)) { size_t p = r.find("="); if (p != std::string::npos) want.emplace(r.substr(0, p), r.substr(p + 1)); }
    EQ("StrSplitIntoMap", StrSplitIntoMap(v, d1, "="), want, D(s));
  }
  std::string up = s, lo = s, trim = s, trimk = s;
  for (auto& ch : up) if (ch >= 'a' && ch <= 'z') ch -= 32;
  for (auto& ch : lo) if (ch >= 'A' && ch <= 'Z') ch += 32;
  for (auto& ch : trim) if ((unsigned char)ch <= ' ' || ch == 0x7f) ch = ' ';
  for (auto& ch : trimk) if (((unsigned char)ch <= ' ' || ch == 0x7f) && ch != '\t') ch = ' ';
  std::string m = s; StrUpperCase(&m);
  EQ("StrUpperCase", StrUpperCase(v), up, D(s)); EQ("StrUpperCase", m, up, D(s));
  m = s; StrLowerCase(&m);
  EQ("StrLowerCase", StrLowerCase(v), lo, D(s)); EQ("StrLowerCase", m, lo, D(s));
  EQ("StrTrimForTSV", StrTrimForTSV(v), trim, D(s)); EQ("StrTrimForTSV", StrTrimForTSV(v, true), trimk, D(s));
  auto sp = [](char ch) { return (unsigned char)ch <= ' '; };
  std::string st = s;
  while (!st.empty() && sp(st.back())) st.pop_back();
  while (!st.empty() && sp(st.front())) st.erase(0, 1);
  EQ("StrStripSpace", StrStripSpace(v), st, D(s, StrStripSpace(v), st));
  std::string sq;
  for (size_t i = 0; i < st.size(); i++) if (!sp(st[i]) || !sp(st[i - 1])) sq.push_back(st[i]);
  EQ("StrSqueezeAndStripSpace", StrSqueezeAndStripSpace(v), sq, D(s, StrSqueezeAndStripSpace(v), sq));
  std::string sl = s + std::string(g.U(2) ? "\r\n" : "") ;
  std::string sw = sl;
  while (!sw.empty() && (sw.back() == '\n' || sw.back() == '\r')) sw.pop_back();
  EQ("StrStripLine", StrStripLine(Exact(sl).V()), sw, D(sl));
  StrStripLine(&sl); EQ("StrStripLine", sl, sw, D(sl));
  const std::string bf = g.P(60) && !s.empty() ? s.substr(g.U(s.size()), g.R(1, 3)) : Bytes(g, 3), af = Bytes(g, 4);
  std::string rp;
  for (size_t i = 0; i < s.size();) if (!bf.empty() && s.compare(i, bf.size(), bf) == 0) { rp += af; i += bf.size(); } else rp.push_back(s[i++]);
  EQ("StrReplace", StrReplace(v, Exact(bf).V(), af), rp, D(s, StrReplace(v, bf, af), rp));
  std::string rc;
  for (char ch : s) { size_t p = bf.find(ch); if (p == std::string::npos) rc.push_back(ch); else if (p < af.size()) rc.push_back(af[p]); }
  m = s; StrReplaceCharacters(&m, bf, af);
  EQ("StrReplaceCharacters", m, rc, D(s, m, rc));
  EQ("StrBeginsWith", StrBeginsWith(v, bf), s.compare(0, bf.size(), bf) == 0 && bf.size() <= s.size(), D(s));
  EQ("StrEndsWith", StrEndsWith(v, bf), bf.size() <= s.size() && s.compare(s.size() - bf.size(), bf.size(), bf) == 0, D(s));
  {
    std::string o = g.P(50) ? s : Bytes(g, 10);
    if (!o.empty() && g.P(60)) { auto& ch = o[g.U(o.size())]; ch = (char)g.U(256); }
    if (g.P(30) && !o.empty()) o.resize(o.size() - 1);
    std::string ol = o;
    for (auto& ch : ol) if (ch >= 'A' && ch <= 'Z') ch += 32;
    const int cmp = lo.compare(ol);
    EQ("StrCaseCompare", StrCaseCompare(v, Exact(o).V()), cmp < 0 ? -1 : cmp > 0 ? 1 : 0, D(s));
  }
  c.Sig(s);
}

static void Numbers(Ctx& c, Rng& g) {
  const uint64_t u = Num(g);
  const int64_t i = (int64_t)u;
  const std::string pre = g.P(50) ? "" : std::string(g.U(3), ' '), post = g.P(50) ? "" : g.Pick({" ", "x", "\n", " 7", "_"});
  EQ("StrToInt", StrToInt(Exact(pre + Fmt("%lld", (long long)i) + post).V()), i, Fmt("%lld", (long long)i));
  EQ("StrToInt", StrToInt(Exact(pre).V(), i), i, std::string("default"));
  EQ("StrToIntHex", StrToIntHex(Exact(pre + Fmt(g.P(50) ? "%llx" : "0x%llX", (unsigned long long)u) + (post == "_" ? "" : post)).V()), u, Fmt("%llx", (unsigned long long)u));
  EQ("StrToIntOct", StrToIntOct(Exact(pre + Fmt("%llo", (unsigned long long)u) + (post == " 7" ? " " : post)).V()), u, Fmt("%llo", (unsigned long long)u));
  EQ("ToString(int)", ToString(i), Fmt("%lld", (long long)i), Fmt("%lld", (long long)i));
  EQ("StrToIntOrBool", StrToIntOrBool(pre + "TRUE" + (post == " " ? post : "")), (int64_t)1, std::string("TRUE"));
  static const char* tr[] = {"true", "t", "yes", "y", "1", "Yes", "T"};
  static const char* fa[] = {"false", "f", "no", "n", "0", "No", "FALSE"};
  EQ("StrToBool", StrToBool(tr[g.U(7)], g.P(50)), true, std::string("true"));
  EQ("StrToBool", StrToBool(fa[g.U(7)], g.P(50)), false, std::string("false"));
  EQ("StrToBool", StrToBool("maybe", true), true, std::string("default"));
  {
    static const struct { const char* s; int64_t m; } sx[] = {{"", 1}, {"k", 1000}, {"Ki", 1024}, {"M", 1000000}, {"mi", 1 << 20}, {"G", 1000000000}, {"gI", 1 << 30}, {"T", 1000000000000}, {"Ti", 1LL << 40}, {"P", 1000000000000000}, {"pi", 1LL << 50}};
    auto& x = sx[g.U(11)];
    const int64_t n = g.R(-5000, 5000);
    const std::string t = pre + Fmt("%lld", (long long)n) + (g.P(30) ? " " : "") + x.s;
    EQ("StrToIntMetric", StrToIntMetric(Exact(t).V()), n * x.m, D(t));
    const std::string h = Fmt("%lld.5", (long long)std::llabs(n)) + x.s;
    if (x.m > 1) EQ("StrToIntMetric", StrToIntMetric(Exact(h).V()), std::llabs(n) * x.m + x.m / 2, D(h));
    if (g.P(10)) EQ("StrToIntMetric", StrToIntMetric("99999999999Ei"), INT64MAX, std::string("clamp"));
    if (g.P(10)) EQ("StrToIntMetric", StrToIntMetric("-99999999999e"), INT64MIN, std::string("clamp"));
  }
  {
    const int sig = (int)g.R(1, 24), ex = (int)g.R(-25, 25);
    std::string t = g.P(30) ? "-" : "";
    const int dot = (int)g.U(sig + 1);
    for (int k = 0; k < sig; k++) { if (k == dot) t += "."; t.push_back((char)('0' + g.U(10))); }
    if (g.P(60)) t += Fmt("%c%d", g.P(50) ? 'e' : 'E', ex);
    const double want = strtod(t.c_str(), nullptr), got = StrToDouble(Exact(t).V());
    VCHECK(c, std::fabs(got - want) <= std::fabs(want) * 1e-12 + 1e-300, "mismatch:StrToDouble", "%s gives %.17g, want %.17g", t.c_str(), got, want);
    VCHECK(c, std::isinf(StrToDouble("-inf")) && StrToDouble("-inf") < 0 && std::isnan(StrToDouble("nan")) && StrToDouble("zz", 2.5) == 2.5, "mismatch:StrToDouble", "special values");
  }
  {
    double d; uint64_t b = g.Next(); memcpy(&d, &b, 8);
    if (g.P(60)) d = (double)i / g.Pick({1.0, 10.0, 1e3, 1e6, 7e9});
    if (std::isfinite(d)) {
      char buf[400];
      int n = snprintf(buf, sizeof buf, "%.6f", d);
      while (buf[n - 1] == '0') n--;
      if (buf[n - 1] == '.') n--;
      EQ("ToString(double)", ToString(d), std::string(buf, n), D(ToString(d), ToString(d), std::string(buf, n)));
    }
    const int w = (int)g.Pick({0, 1, 5, 20, 33, 63, 64, 65, 120}), pr = (int)g.Pick({0, 1, 3, 10, 40, 70});
    char buf[1200];
    auto cmp = [&](const std::string& f, const std::string& got) { EQ("SPrintF", got, std::string(buf), "format " + f + " gives " + Show(got, 90) + ", want " + Show(buf, 90)); };
    std::string f;
    const std::string fl = g.Pick({"", "-", "0", "+", " ", "-+"});
    const std::string width = w ? Fmt("%d", w) : "";
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
    f = "a%" + fl + width + "lldb"; snprintf(buf, sizeof buf, f.c_str(), (long long)i); cmp(f, SPrintF(f.c_str(), (long long)i));
    f = "%" + fl + width + "d|"; snprintf(buf, sizeof buf, f.c_str(), (int)i); cmp(f, SPrintF(f.c_str(), (int)i));
    f = "%" + width + "ld"; snprintf(buf, sizeof buf, f.c_str(), (long)i); cmp(f, SPrintF(f.c_str(), (long)i));
    f = "%zu,%" + width + "u,%x,%llX,%o,%%"; snprintf(buf, sizeof buf, f.c_str(), (size_t)u, (unsigned)u, (unsigned)u, (unsigned long long)u, (unsigned)u); cmp(f, SPrintF(f.c_str(), (size_t)u, (unsigned)u, (unsigned)u, (unsigned long long)u, (unsigned)u));
    f = "%" + fl + width + Fmt(".%d%c", pr, "eEfgG"[g.U(5)]); if (std::isfinite(d)) { snprintf(buf, sizeof buf, f.c_str(), d); cmp(f, SPrintF(f.c_str(), d)); }
    std::string txt = Bytes(g, 90);
    for (auto& ch : txt) if (!ch) ch = '.';
    f = "<%" + (g.P(50) ? width : "") + "s>"; snprintf(buf, sizeof buf, f.c_str(), txt.c_str()); cmp(f, SPrintF(f.c_str(), txt.c_str()));
#pragma GCC diagnostic pop
    if (g.P(10)) { Exact fx(std::string("ab%", 4)); EQ("SPrintF", SPrintF(fx.p), std::string("ab"), std::string("a lone percent sign")); }
  }
  c.Sig(u);
}

static void Case(Ctx& c, Rng& g, int64_t) {
  Describe(c, "strings and numbers");
  for (int i = 0; i < 10; i++) {
    RoundTrips(c, g);
    Unicode(c, g);
    for (int k = 0; k < 4; k++) Garbage(c, g);
    Definitions(c, g);
    Numbers(c, g);
    switch (g.U(8)) {
      case 0: VecRT<int8_t>(c, g, "int8"); break;
      case 1: VecRT<int16_t>(c, g, "int16"); break;
      case 2: VecRT<int32_t>(c, g, "int32"); break;
      case 3: VecRT<int64_t>(c, g, "int64"); break;
      case 4: VecRT<uint8_t>(c, g, "uint8"); break;
      case 5: VecRT<uint16_t>(c, g, "uint16"); break;
      case 6: VecRT<uint32_t>(c, g, "uint32"); break;
      default: VecRT<uint64_t>(c, g, "uint64"); break;
    }
  }
  c.Sig(g.Next());  // the inputs drawn
  c.nontrivial = true;
}
int main(int argc, char** argv) { return Main(argc, argv, "C18", Case); }
