// C20: compressors and ciphers: round trips, rejection of damaged input, exact memory use.
#include <thread>
#include "vh.h"
#include "tkrzw_compress.h"
#include "tkrzw_lib_common.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HEAP_BYTES() ((int64_t)__sanitizer_get_current_allocated_bytes())
#endif
#endif
#ifndef HEAP_BYTES
#define HEAP_BYTES() ((int64_t)0)
#endif
using namespace vh;
using namespace tkrzw;

struct Kind { std::string name; std::unique_ptr<Compressor> z; bool checked = false, adler = false, cipher = false, slow = false; std::string key; };
static Kind MakeKind(Rng& g, bool quick) {
  Kind k;
  switch (g.U(quick ? 9 : 10)) {
    case 0: k.checked = g.P(50); k.z = std::make_unique<DummyCompressor>(k.checked); k.name = Fmt("Dummy(%d)", k.checked); break;
    case 1: case 2: {
      const int lv = (int)g.R(0, 9), m = (int)g.U(3);
      k.z = std::make_unique<ZLibCompressor>(lv, (ZLibCompressor::MetadataMode)m);
      k.checked = m > 0; k.adler = m == 1;
      k.name = Fmt("ZLib(%d,%d)", lv, m); break;
    }
    case 3: { const int lv = (int)g.R(-1, 19); k.z = std::make_unique<ZStdCompressor>(lv); k.name = Fmt("ZStd(%d)", lv); k.slow = lv > 12; break; }
    case 4: { const int lv = (int)g.Pick({1, 2, 10, 65537}); k.z = std::make_unique<LZ4Compressor>(lv); k.name = Fmt("LZ4(%d)", lv); break; }
    case 5: case 6: { k.key = std::string(g.Pick({0, 1, 5, 16, 249, 250, 251, 300}), 'k'); for (auto& ch : k.key) ch = (char)g.U(256); k.z = std::make_unique<RC4Compressor>(k.key, (uint32_t)g.U(3)); k.cipher = true; k.name = Fmt("RC4(key %zu)", k.key.size()); break; }
    case 7: case 8: { k.key = std::string(g.Pick({0, 1, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 100}), 'k'); for (auto& ch : k.key) ch = (char)g.U(256); k.z = std::make_unique<AESCompressor>(k.key, (uint32_t)g.U(3)); k.cipher = true; k.name = Fmt("AES(key %zu)", k.key.size()); break; }
    default: {
      const int lv = (int)g.R(0, 9), m = (int)g.U(3);
      k.z = std::make_unique<LZMACompressor>(lv, (LZMACompressor::MetadataMode)m);
      k.checked = m > 0; k.slow = true;
      k.name = Fmt("LZMA(%d,%d)", lv, m); break;
    }
  }
  return k;
}
static std::string Data(Rng& g, size_t max) {
  size_t n = g.P(8) ? 0 : g.P(50) ? g.U(40) : g.P(60) ? g.U(2000) : g.U(max + 1);
  if (g.P(20)) n = (n / 16) * 16 + g.U(2);
  std::string s(n, 0);
  const int mode = (int)g.U(5);
  uint64_t x = g.Next();
  for (size_t i = 0; i < n; i++) {
    if (mode == 0) { x = x * 6364136223846793005ull + 1442695040888963407ull; s[i] = (char)(x >> 56); }
    else if (mode == 1) s[i] = 'a';
    else if (mode == 2) { x = x * 6364136223846793005ull + 1442695040888963407ull; s[i] = "abcd    "[x >> 61]; }
    else if (mode == 3) s[i] = i < 50 ? (char)g.U(256) : s[i - 50];
    else s[i] = 0;
  }
  return s;
}
struct Exact {
  char* p; size_t n;
  explicit Exact(std::string_view s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
};
static std::string Rc4(const std::string& key, std::string_view z) {
  const std::string k = (key.empty() ? std::string(1, 0) : key) + std::string(z.substr(0, 6));
  unsigned char s[256];
  for (int i = 0; i < 256; i++) s[i] = (unsigned char)i;
  for (int i = 0, j = 0; i < 256; i++) { j = (j + s[i] + (unsigned char)k[i % k.size()]) & 255; std::swap(s[i], s[j]); }
  std::string r(z.substr(6));
  int x = 0, y = 0;
  for (auto& ch : r) { x = (x + 1) & 255; y = (y + s[x]) & 255; std::swap(s[x], s[y]); ch = (char)(ch ^ s[(s[x] + s[y]) & 255]); }
  return r;
}

static void One(Ctx& c, Rng& g, const Kind& k, const std::string& d, bool damage) {
  VCHECK(c, k.z->IsSupported(), "harness:unsupported", "%s isn't built in", k.name.c_str());
  Exact in(d);
  const int64_t heap = HEAP_BYTES();
  size_t zn = SIZE_MAX;
  char* z = k.z->Compress(in.p, in.n, &zn);
  VCHECK(c, z != nullptr && zn != SIZE_MAX, "mismatch:compress", "%s fails to compress %s", k.name.c_str(), Show(d).c_str());
  {
    Exact zi(std::string_view(z, zn));
    xfree(z);
    size_t un = SIZE_MAX;
    char* u = k.z->Decompress(zi.p, zi.n, &un);
    VCHECK(c, u != nullptr && un == d.size() && memcmp(u, d.data(), un) == 0, "mismatch:roundtrip", "%s loses %s (%zu bytes compressed, %lld back)", k.name.c_str(), Show(d).c_str(), zn, u ? (long long)un : -1LL);
    xfree(u);
    c.Stat("roundtrips");
    c.Sig(std::string_view(zi.p, k.cipher ? 0 : zi.n));
    if (k.name[0] == 'R') VCHECK(c, Rc4(k.key, std::string_view(zi.p, zi.n)) == d, "mismatch:rc4", "%s isn't RC4 of %s", k.name.c_str(), Show(d).c_str());
    if (k.cipher && d.size() >= 16) VCHECK(c, std::string_view(zi.p, zi.n).find(std::string_view(d).substr(0, 16)) == std::string::npos, "mismatch:cipher", "%s leaves the text readable: %s", k.name.c_str(), Show(d).c_str());
    if (damage) {
      auto other = k.z->MakeCompressor();
      const int n = k.slow || k.name[0] == 'Z' || k.name[0] == 'L' ? 1 : 6;
      for (int i = 0; i < n; i++) {
        std::string m(zi.p, zi.n);
        const int how = (int)g.U(6);
        if (how == 0 || m.empty()) { m.assign(g.U(64), 0); for (auto& ch : m) ch = (char)g.U(256); }
        else if (how == 1) m.resize(g.U(m.size()));
        else if (how == 2) m[g.U(m.size())] ^= (char)(1 << g.U(8));
        else if (how == 3) m[g.U(std::min<size_t>(m.size(), 24))] = (char)g.U(256);
        else if (how == 4) { const size_t a = g.U(m.size()), l = g.U(m.size() - a); for (size_t j = 0; j < l && j < 20; j++) m[a + j] = (char)g.U(256); }
        else m += m.substr(0, g.R(1, 20));
        Exact mi(m);
        un = SIZE_MAX;
        u = other->Decompress(mi.p, mi.n, &un);
        c.Stat("damaged");
        if (u) {
          uint64_t sum = 0;
          VCHECK(c, un != SIZE_MAX, "mismatch:size", "%s sets no size", k.name.c_str());
          for (size_t j = 0; j < un; j++) sum += (unsigned char)u[j];  // every byte is addressable
          if (k.checked && (!k.adler || d.size() >= 64) && how != 0)
            if (un != d.size() || memcmp(u, d.data(), un) != 0) c.Fail("mismatch:checksum", Fmt("%s returns altered data as valid (damage %d): ", k.name.c_str(), how) + Show(std::string_view(u, un)) + " from " + Show(d));
          c.Sig(sum);
          xfree(u);
          c.Stat("damaged_accepted");
        }
      }
      other.reset();
    }
  }
  const int64_t now = HEAP_BYTES();
  VCHECK(c, heap == now, "leak", "%s leaves %lld bytes allocated for %s", k.name.c_str(), (long long)(now - heap), Show(d).c_str());
}

static void Case(Ctx& c, Rng& g, int64_t n) {
  if (g.P(8)) {  // one object shared by threads
    Kind k = MakeKind(g, true);
    Describe(c, "shared " + k.name);
    c.Reach("shared");
    std::atomic<int> bad{0};
    std::vector<std::thread> ts;
    std::set<std::string> ivs;
    std::mutex mu;
    for (int t = 0; t < 4; t++) ts.emplace_back([&, s = g.Next()]() {
      Rng r(s);
      for (int i = 0; i < 20; i++) {
        const std::string d = Data(r, 300);
        size_t zn = 0, un = 0;
        char* z = k.z->Compress(d.data(), d.size(), &zn);
        char* u = z ? k.z->Decompress(z, zn, &un) : nullptr;
        if (!u || std::string_view(u, un) != d) bad++;
        if (k.cipher && z) { std::lock_guard<std::mutex> l(mu); if (!ivs.insert(std::string(z, k.name[0] == 'R' ? 6 : 16)).second) bad += 1000; }
        xfree(u); xfree(z);
      }
    });
    for (auto& t : ts) t.join();
    VCHECK(c, bad == 0, bad >= 1000 ? "mismatch:shared-iv" : "mismatch:shared", "%s used by four threads: %d bad", k.name.c_str(), bad.load());
    c.Stat("shared_roundtrips", 80);
    c.Sig(g.Next());
    c.nontrivial = true;
    return;
  }
  for (auto x : {"roundtrips", "damaged", "damaged_accepted"}) c.Stat(x, 0);  // no allocation while the heap is measured
  Kind k = MakeKind(g, false);
  Describe(c, k.name);
  c.Reach(k.name.substr(0, k.name.find('(')));
  const bool big = k.name.compare(0, 4, "LZMA") == 0 && g.P(c.thorough ? 3 : 1);
  if (big) {  // incompressible data of tens of megabytes
    std::string d((size_t)g.R(20, 40) << 20, 0);
    uint64_t x = g.Next();
    for (size_t i = 0; i + 8 <= d.size(); i += 8) { x = Mix(x + i); memcpy(&d[i], &x, 8); }
    Kind f; f.name = "LZMA(0,1)"; f.z = std::make_unique<LZMACompressor>(0, LZMACompressor::METADATA_CRC32); f.slow = true;
    One(c, g, f, d, false);
    c.Reach("LZMA-huge");
  }
  for (int i = 0; i < (k.slow ? 3 : 12); i++) One(c, g, k, Data(g, k.slow ? 30000 : g.P(3) ? 3000000 : 100000), i < 3 && (k.cipher || k.name[0] == 'D' || (i == 0 && g.P(12))));
  c.Sig(g.Next());
  c.nontrivial = true;
}
int main(int argc, char** argv) { return Main(argc, argv, "C20", Case); }
