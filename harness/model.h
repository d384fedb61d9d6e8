// Reference model of a key-value database and generators of keys and values.
#pragma once
#include "vh.h"
#include "tkrzw_dbm.h"
#include "tkrzw_key_comparators.h"
#include "tkrzw_str_util.h"

namespace vh {

using tkrzw::Status;
using tkrzw::DBM;

typedef std::function<int(std::string_view, std::string_view)> Cmp;

inline int BytesCmp(std::string_view a, std::string_view b) {
  const size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
  }
  return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
inline int CaseCmp(std::string_view a, std::string_view b) {
  auto low = [](unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : (int)c; };
  const size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) {
    int x = low(a[i]), y = low(b[i]);
    if (x != y) return x < y ? -1 : 1;
  }
  return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
inline long long DecVal(std::string_view s) { return strtoll(std::string(s).c_str(), nullptr, 10); }
inline long long HexVal(std::string_view s) { return (long long)strtoull(std::string(s).c_str(), nullptr, 16); }
inline double RealVal(std::string_view s) { return strtod(std::string(s).c_str(), nullptr); }
inline long long SBEVal(std::string_view s) {
  uint64_t v = 0;
  for (unsigned char c : s) v = (v << 8) | c;
  switch (s.size()) {
    case 1: return (int8_t)v;
    case 2: return (int16_t)v;
    case 4: return (int32_t)v;
    default: return (int64_t)v;
  }
}
inline double FBEVal(std::string_view s) {
  uint64_t v = 0;
  for (unsigned char c : s) v = (v << 8) | c;
  if (s.size() == 4) { uint32_t w = (uint32_t)v; float f; memcpy(&f, &w, 4); return f; }
  if (s.size() == 8) { double d; memcpy(&d, &v, 8); return d; }
  return 0;
}
// The pair format (length as a base-128 number, big end first; then the bytes), written independently of the library.
inline std::string RefVar(uint64_t n) {
  std::string r(1, (char)(n & 127));
  while (n >>= 7) r.insert(r.begin(), (char)(128 | (n & 127)));
  return r;
}
inline std::string RefPairMake(std::string_view a, std::string_view b) { return RefVar(a.size()) + std::string(a) + RefVar(b.size()) + std::string(b); }
inline void RefPair(std::string_view s, std::string_view* a, std::string_view* b) {
  auto take = [&](std::string_view* o) {
    size_t n = 0;
    while (!s.empty()) { unsigned char ch = s[0]; s.remove_prefix(1); n = n << 7 | (ch & 127); if (ch < 128) break; }
    *o = s.substr(0, n);
    s.remove_prefix(std::min(n, s.size()));
  };
  take(a);
  take(b);
}
template <class T> int C3(T a, T b) { return a < b ? -1 : b < a ? 1 : 0; }

// One kind of key order: the library's comparator, an independent definition, and valid keys.
struct KeyOrder {
  std::string name;
  tkrzw::KeyComparator comp;
  Cmp ref;
  bool numeric;  // keys must be made by the order itself
  std::function<std::string(Rng&, int space)> make;
};

inline std::string BE(uint64_t v, int n) {
  std::string r(n, 0);
  for (int i = 0; i < n; i++) r[i] = (char)(v >> (8 * (n - 1 - i)));
  return r;
}

inline const std::vector<KeyOrder>& KeyOrders() {
  static const std::vector<KeyOrder> v = [] {
    std::vector<KeyOrder> r;
    r.push_back({"lexical", tkrzw::LexicalKeyComparator, BytesCmp, false, nullptr});
    r.push_back({"lexcase", tkrzw::LexicalCaseKeyComparator, CaseCmp, true, [](Rng& g, int space) {
      std::string s;
      int v = (int)g.U(space);
      s = Fmt("k%dQz", v * 7 % 1000003);
      for (auto& c : s) if (c >= 'a' && c <= 'z' && g.P(30)) c -= 32; else if (c >= 'A' && c <= 'Z' && g.P(30)) c += 32;
      return s;
    }});
    r.push_back({"decimal", tkrzw::DecimalKeyComparator, [](std::string_view a, std::string_view b) { return C3(DecVal(a), DecVal(b)); }, true,
      [](Rng& g, int space) { long long v = (long long)g.U(space) - space / 3; return g.P(15) && v > 0 ? Fmt("%06lld", v) : Fmt("%lld", v); }});
    r.push_back({"hex", tkrzw::HexadecimalKeyComparator, [](std::string_view a, std::string_view b) { return C3(HexVal(a), HexVal(b)); }, true,
      [](Rng& g, int space) { unsigned long long v = g.U(space); return g.P(15) ? Fmt("%05llx", v) : g.P(30) ? Fmt("%llX", v) : Fmt("%llx", v); }});
    r.push_back({"real", tkrzw::RealNumberKeyComparator, [](std::string_view a, std::string_view b) { return C3(RealVal(a), RealVal(b)); }, true,
      [](Rng& g, int space) { long long v = (long long)g.U(space) - space / 3; return g.P(50) ? Fmt("%lld.%d", v, g.P(50) ? 5 : 25) : Fmt("%lld", v); }});
    r.push_back({"sbe", tkrzw::SignedBigEndianKeyComparator, [](std::string_view a, std::string_view b) { return C3(SBEVal(a), SBEVal(b)); }, true,
      [](Rng& g, int space) { long long v = (long long)g.U(space) - space / 3; int n = g.Pick({8, 8, 8, 4, 4, 2}); return BE((uint64_t)v, n); }});
    r.push_back({"fbe", tkrzw::FloatBigEndianKeyComparator, [](std::string_view a, std::string_view b) { return C3(FBEVal(a), FBEVal(b)); }, true,
      [](Rng& g, int space) {
        double d = ((double)g.U(space) - space / 3) * 0.5;
        if (g.P(25)) { float f = (float)d; uint32_t w; memcpy(&w, &f, 4); return BE(w, 4); }
        uint64_t w; memcpy(&w, &d, 8); return BE(w, 8);
      }});
    // Pairs: ordered by the first element, then by the bytes of the second one.
    const tkrzw::KeyComparator pc[] = {tkrzw::PairLexicalKeyComparator, tkrzw::PairLexicalCaseKeyComparator, tkrzw::PairDecimalKeyComparator, tkrzw::PairHexadecimalKeyComparator,
                                       tkrzw::PairRealNumberKeyComparator, tkrzw::PairSignedBigEndianKeyComparator, tkrzw::PairFloatBigEndianKeyComparator};
    for (int i = 0; i < 7; i++) {
      const KeyOrder base = r[i];
      const Cmp bref = base.ref;
      const auto bmake = base.make;
      r.push_back({"pair-" + base.name, pc[i], [bref](std::string_view a, std::string_view b) {
          std::string_view a1, a2, b1, b2;
          RefPair(a, &a1, &a2);
          RefPair(b, &b1, &b2);
          const int c = bref(a1, b1);
          return c ? c : BytesCmp(a2, b2);
        }, true, [bmake](Rng& g, int space) {
          const int few = std::max(2, space / 6);
          std::string first = bmake ? bmake(g, few) : g.P(80) ? Fmt("%llu", (unsigned long long)g.U(few)) : g.Bytes(g.U(5));
          std::string second = g.P(10) ? "" : g.P(30) ? std::string(1, (char)g.Next()) : g.P(70) ? Fmt("%c%llu", g.P(50) ? 'v' : 'V', (unsigned long long)g.U(12)) : g.P(95) ? g.Bytes(g.U(8)) : g.Bytes(g.Pick({127, 128, 130}));
          return RefPairMake(first, second);
        }});
    }
    return r;
  }();
  return v;
}

struct KeyGen {
  std::vector<std::string> pool;
  static KeyGen Make(Rng& g, const KeyOrder* order, int space) {
    KeyGen k;
    if (order && order->numeric) {
      std::set<std::string> s;
      for (int i = 0; i < space; i++) s.insert(order->make(g, space));
      k.pool.assign(s.begin(), s.end());
    } else {
      const int style = (int)g.U(6);
      std::set<std::string> s;
      const std::string prefix = g.Bytes(1 + g.U(30));
      for (int i = 0; i < space; i++) {
        switch (style) {
          case 0: s.insert(Fmt("%05d", i)); break;
          case 1: s.insert(g.Bytes(g.U(10))); break;
          case 2: s.insert(prefix + Fmt("%d", i)); break;
          case 3: s.insert(std::string(g.U(60), (char)g.Pick<int>({0, 255, 'a'})) + (g.P(50) ? "b" : "")); break;
          case 4: s.insert(g.P(70) ? Fmt("%x", i) : g.Bytes(g.Pick({0, 1, 126, 127, 128, 129, 300}))); break;
          default: s.insert(g.P(96) ? g.Bytes(1 + g.U(4)) : g.Bytes(g.Pick({16380, 16383, 16384, 16385, 70000}))); break;
        }
      }
      if (g.P(60)) s.insert("");
      k.pool.assign(s.begin(), s.end());
    }
    return k;
  }
  const std::string& operator()(Rng& g) const {
    // Skewed: half of the picks hit a small hot set.
    if (g.P(40)) return pool[g.U(std::min<size_t>(pool.size(), 8))];
    return pool[g.U(pool.size())];
  }
};

struct ValGen {
  int style = 0;
  uint64_t n = 0;
  explicit ValGen(Rng& g) { style = (int)g.U(5); }
  std::string operator()(Rng& g) {
    n++;
    size_t len;
    switch (style) {
      case 0: len = g.U(12); break;
      case 1: len = g.Pick<int>({0, 1, 15, 16, 17, 31, 32, 33, 100, 126, 127, 128, 129, 130, 250, 255, 256}); break;
      case 2: len = g.P(90) ? g.U(40) : g.U(3000); break;
      case 3: len = g.P(97) ? g.U(64) : (size_t)g.Pick<int>({4095, 4096, 16382, 16383, 16384, 16385, 40000}); break;
      default: len = g.U(200); break;
    }
    std::string r;
    const int kind = (int)g.U(4);
    if (kind == 0) r = g.Bytes(len);
    else if (kind == 1) r.assign(len, (char)g.Pick<int>({0, 255, 'x'}));
    else {
      r = Fmt("%llu:", (unsigned long long)n);
      while (r.size() < len) r += Fmt("%llx", (unsigned long long)g.U(1 << 20));
      r.resize(len);
    }
    return r;
  }
};

struct KeyLess {
  const Cmp* c;
  bool operator()(const std::string& a, const std::string& b) const { return (*c)(a, b) < 0; }
};
struct Model {
  Cmp cmp;
  std::map<std::string, std::string, KeyLess> m;
  bool ordered;
  explicit Model(bool ordered_ = false, Cmp c = BytesCmp) : cmp(c), m(KeyLess{&cmp}), ordered(ordered_) {}
  Model(const Model& r) : cmp(r.cmp), m(KeyLess{&cmp}), ordered(r.ordered) { for (auto& kv : r.m) m.insert(kv); }
  Model& operator=(const Model& r) { m.clear(); for (auto& kv : r.m) m.insert(kv); ordered = r.ordered; return *this; }
  const std::string* Get(std::string_view k) const {
    auto it = m.find(std::string(k));
    return it == m.end() ? nullptr : &it->second;
  }
  // Keeps the key that is already there when an equal one is given.
  void Set(std::string_view k, std::string_view v) {
    auto it = m.find(std::string(k));
    if (it == m.end()) m.emplace(std::string(k), std::string(v));
    else it->second = std::string(v);
  }
  bool Remove(std::string_view k) { return m.erase(std::string(k)) > 0; }
  std::string KeyOf(std::string_view k) const {
    auto it = m.find(std::string(k));
    return it == m.end() ? std::string(k) : it->first;
  }
  int64_t DataSize() const { int64_t n = 0; for (auto& kv : m) n += kv.first.size() + kv.second.size(); return n; }
};

// A plain content snapshot.
typedef std::map<std::string, std::string> Content;

inline std::string DiffContent(const Content& want, const Content& got) {
  int n = 0;
  std::string r;
  for (auto& kv : want) {
    auto it = got.find(kv.first);
    if (it == got.end()) { if (n++ < 3) r += " missing " + Show(kv.first) + "=" + Show(kv.second, 16); }
    else if (it->second != kv.second) { if (n++ < 3) r += " differs " + Show(kv.first) + " want " + Show(kv.second, 16) + " got " + Show(it->second, 16); }
  }
  for (auto& kv : got) if (!want.count(kv.first)) { if (n++ < 3) r += " extra " + Show(kv.first) + "=" + Show(kv.second, 16); }
  return n ? Fmt("%d differences:", n) + r : "";
}
inline Content ToContent(const Model& m) {
  Content c;
  for (auto& kv : m.m) c.emplace(kv.first, kv.second);
  return c;
}

}  // namespace vh
