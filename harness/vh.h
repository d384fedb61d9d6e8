// Shared harness core: seeded randomness, case runner, violation and coverage reporting.
#pragma once
#include "contain.h"
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <dirent.h>
#include <signal.h>
#include <algorithm>

namespace vh {

// ---------- randomness ----------
inline uint64_t Mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(Mix(seed)) {}
  uint64_t Next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
  }
  // Uniform in [0, n).
  uint64_t U(uint64_t n) { return n == 0 ? 0 : Next() % n; }
  // Uniform in [a, b].
  int64_t R(int64_t a, int64_t b) { return a + (int64_t)U((uint64_t)(b - a) + 1); }
  bool P(int pct) { return (int)U(100) < pct; }
  double F() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T& Pick(const std::vector<T>& v) { return v[U(v.size())]; }
  template <class T> T Pick(std::initializer_list<T> v) { return *(v.begin() + U(v.size())); }
  std::string Bytes(size_t n) {
    std::string r(n, 0);
    for (auto& c : r) c = (char)Next();
    return r;
  }
};

inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t HashStr(std::string_view s, uint64_t h = 1469598103934665603ull) {
  return HashBytes(s.data(), s.size(), h);
}

inline int64_t NowNs() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------- formatting ----------
inline std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string Fmt(const char* f, ...) {
  va_list ap, ap2;
  va_start(ap, f);
  va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, f, ap);
  va_end(ap);
  std::string r(n, 0);
  vsnprintf(&r[0], n + 1, f, ap2);
  va_end(ap2);
  return r;
}
// Printable rendering of binary data, shortened.
inline std::string Show(std::string_view s, size_t max = 40) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i];
    if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') r += (char)c;
    else r += Fmt("\\x%02x", c);
  }
  r += "\"";
  if (s.size() > max) r += Fmt("..(%zu bytes,h=%08x)", s.size(), (unsigned)HashStr(s));
  return r;
}
inline std::string JStr(std::string_view s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 0x20 || c >= 0x7f) r += Fmt("\\u%04x", c);
    else r += (char)c;
  }
  return r + "\"";
}

// ---------- files ----------
inline bool ReadAll(const std::string& path, std::string* out) {
  int fd = open(path.c_str(), O_RDONLY);
  if (fd < 0) return false;
  out->clear();
  char buf[65536];
  ssize_t n;
  while ((n = read(fd, buf, sizeof(buf))) > 0) out->append(buf, n);
  close(fd);
  return true;
}
inline bool WriteAll(const std::string& path, std::string_view data) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return false;
  size_t off = 0;
  while (off < data.size()) {
    ssize_t n = write(fd, data.data() + off, data.size() - off);
    if (n <= 0) { close(fd); return false; }
    off += n;
  }
  close(fd);
  return true;
}
inline bool Exists(const std::string& path) { struct stat st; return lstat(path.c_str(), &st) == 0; }
inline int64_t FileSize(const std::string& path) {
  struct stat st;
  return stat(path.c_str(), &st) == 0 ? (int64_t)st.st_size : -1;
}
inline std::vector<std::string> ListDir(const std::string& dir) {
  std::vector<std::string> r;
  DIR* d = opendir(dir.c_str());
  if (!d) return r;
  while (auto* e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") r.push_back(n);
  }
  closedir(d);
  std::sort(r.begin(), r.end());
  return r;
}
// Removes what is inside a scratch directory of ours (never follows links).
inline void CleanDir(const std::string& dir) {
  for (auto& n : ListDir(dir)) {
    std::string p = dir + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { CleanDir(p); rmdir(p.c_str()); }
    else unlink(p.c_str());
  }
}

// ---------- case runner ----------
struct CaseAbort {};

struct Ctx {
  // fixed for the run
  std::string id, dir, out_path;
  uint64_t seed = 1;
  bool thorough = false, verbose = false;
  int64_t from = 0, to = 0, only = -1;
  FILE* out = nullptr;
  // per case
  int64_t cur = -1;
  uint64_t sig = 0;
  int64_t case_evals = 0;
  bool nontrivial = false;
  bool failed = false;
  std::string desc;
  std::vector<std::string> trace;
  size_t trace_base = 0;
  std::mutex mu;
  // totals
  std::map<std::string, int64_t> stats;
  std::map<std::string, int64_t> maxima;
  std::set<std::string> states;     // named states/branches reached
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> multi_sigs;
  int64_t nviol = 0;

  void Stat(const std::string& name, int64_t n = 1) { std::lock_guard<std::mutex> l(mu); stats[name] += n; }
  void Max(const std::string& name, int64_t n) {
    std::lock_guard<std::mutex> l(mu);
    auto& m = maxima[name];
    if (n > m) m = n;
  }
  void Reach(const std::string& name) { std::lock_guard<std::mutex> l(mu); states.insert(name); }
  // Mixes an observed fact into the signature of the case.
  void Sig(uint64_t v) { sig = Mix(sig ^ v); }
  void Sig(std::string_view s) { sig = Mix(sig ^ HashStr(s)); }
  // Extra evaluation within a case, with its own signature.
  void Eval(uint64_t s) { case_evals++; std::lock_guard<std::mutex> l(mu); if (multi_sigs.size() < 2000000) multi_sigs.insert(Mix(s)); }
  void T(const std::string& line) {
    std::lock_guard<std::mutex> l(mu);
    if (verbose) { fprintf(stderr, "  %s\n", line.c_str()); }
    trace.push_back(line);
    if (trace.size() > 400) { trace.erase(trace.begin(), trace.begin() + 200); trace_base += 200; }
  }
  void Record(const std::string& key, const std::string& msg) {
    std::lock_guard<std::mutex> l(mu);
    failed = true;
    nviol++;
    std::string tr = "[";
    size_t b = trace.size() > 60 ? trace.size() - 60 : 0;
    for (size_t i = b; i < trace.size(); i++) { if (i > b) tr += ","; tr += JStr(trace[i]); }
    tr += "]";
    fprintf(out, "{\"t\":\"viol\",\"case\":%" PRId64 ",\"key\":%s,\"msg\":%s,\"desc\":%s,\"trace\":%s}\n",
            cur, JStr(key).c_str(), JStr(msg).c_str(), JStr(desc).c_str(), tr.c_str());
    fflush(out);
    fprintf(stderr, "[%s case %" PRId64 "] VIOL %s: %s | %s\n", id.c_str(), cur, key.c_str(), msg.c_str(), desc.c_str());
  }
  [[noreturn]] void Fail(const std::string& key, const std::string& msg) {
    Record(key, msg);
    throw CaseAbort();
  }
  // Harness problem: neither pass nor fail.
  [[noreturn]] void Broken(const std::string& msg) {
    fprintf(stderr, "HARNESS ERROR case %" PRId64 ": %s | %s\n", cur, msg.c_str(), desc.c_str());
    fprintf(out, "{\"t\":\"broken\",\"case\":%" PRId64 ",\"msg\":%s}\n", cur, JStr(msg).c_str());
    fflush(out);
    _exit(42);
  }
  std::string Path(const std::string& name) const { return dir + "/" + name; }
};

inline Ctx* g_ctx = nullptr;

#define VCHECK(ctx, cond, key, ...) do { if (!(cond)) (ctx).Fail(key, ::vh::Fmt(__VA_ARGS__)); } while (0)

// Progress is kept in a small shared mapping so that it survives any kind of death.
struct Progress { int64_t cur; int64_t done; char desc[2000]; };
inline Progress* g_prog = nullptr;
inline void Describe(Ctx& c, const std::string& d) {
  c.desc = d;
  if (g_prog) { snprintf(g_prog->desc, sizeof(g_prog->desc), "%s", d.c_str()); }
  if (c.verbose) fprintf(stderr, "case %" PRId64 ": %s\n", c.cur, d.c_str());
}

typedef std::function<void(Ctx&, Rng&, int64_t)> CaseFn;

inline int Main(int argc, char** argv, const char* id, const CaseFn& fn) {
  Ctx c;
  g_ctx = &c;
  c.id = id;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") c.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--from") c.from = atoll(val().c_str());
    else if (a == "--to") c.to = atoll(val().c_str());
    else if (a == "--dir") c.dir = val();
    else if (a == "--out") c.out_path = val();
    else if (a == "--tier") c.thorough = val() == "thorough";
    else if (a == "--verbose") c.verbose = true;
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 42; }
  }
  if (c.dir.empty() || c.out_path.empty()) { fprintf(stderr, "need --dir and --out\n"); return 42; }
  { char* rp = realpath(c.dir.substr(0, c.dir.rfind('/')).c_str(), nullptr); g_contain_dir = rp ? std::string(rp) + c.dir.substr(c.dir.rfind('/')) : c.dir; free(rp); }
  c.out = fopen(c.out_path.c_str(), "a");
  if (!c.out) { perror("out"); return 42; }
  signal(SIGPIPE, SIG_IGN);
  std::string pp = c.out_path + ".progress";
  int fd = open(pp.c_str(), O_RDWR | O_CREAT, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) { perror("progress"); return 42; }
  g_prog = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  g_prog->cur = -1;
  for (int64_t n = c.from; n < c.to; n++) {
    c.cur = n;
    g_prog->cur = n;
    g_prog->desc[0] = 0;
    c.sig = Mix(0x1234);
    c.case_evals = 0;
    c.nontrivial = false;
    c.failed = false;
    c.desc.clear();
    c.trace.clear();
    c.trace_base = 0;
    mkdir(c.dir.c_str(), 0755);
    CleanDir(c.dir);
    Rng rng(Mix(c.seed * 1000003ull + 17) ^ Mix((uint64_t)n + HashStr(id)));
    try {
      fn(c, rng, n);
    } catch (const CaseAbort&) {
    } catch (const std::exception& e) {
      c.Record("exception", Fmt("unexpected exception: %s", e.what()));
    }
    fprintf(c.out, "{\"t\":\"c\",\"n\":%" PRId64 ",\"sig\":\"%016" PRIx64 "\",\"nt\":%d,\"e\":%" PRId64 "}\n", n, c.sig,
            c.nontrivial ? 1 : 0, c.case_evals);
    if ((n & 15) == 0) fflush(c.out);
    if (c.samples.size() < 3 && c.nontrivial && !c.failed) {
      std::string s = c.desc;
      for (size_t i = 0; i < c.trace.size() && i < 12; i++) s += " ; " + c.trace[i];
      if (s.size() > 1200) s = s.substr(0, 1200) + "...";
      c.samples.push_back(s);
    }
    g_prog->done++;
    if (c.nviol >= 20) break;
  }
  CleanDir(c.dir);
  fprintf(c.out, "{\"t\":\"sum\",\"stats\":{");
  bool first = true;
  for (auto& kv : c.stats) { fprintf(c.out, "%s%s:%" PRId64, first ? "" : ",", JStr(kv.first).c_str(), kv.second); first = false; }
  fprintf(c.out, "},\"max\":{");
  first = true;
  for (auto& kv : c.maxima) { fprintf(c.out, "%s%s:%" PRId64, first ? "" : ",", JStr(kv.first).c_str(), kv.second); first = false; }
  fprintf(c.out, "},\"states\":[");
  first = true;
  for (auto& s : c.states) { fprintf(c.out, "%s%s", first ? "" : ",", JStr(s).c_str()); first = false; }
  fprintf(c.out, "],\"samples\":[");
  first = true;
  for (auto& s : c.samples) { fprintf(c.out, "%s%s", first ? "" : ",", JStr(s).c_str()); first = false; }
  fprintf(c.out, "],\"msigs\":%zu}\n", c.multi_sigs.size());
  fclose(c.out);
  g_prog->cur = -2;
  return 0;
}

}  // namespace vh
