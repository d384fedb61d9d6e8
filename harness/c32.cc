// C32: time and path utilities against independent definitions.
#include <cmath>
#include "vh.h"
#include "tkrzw_file_util.h"
#include "tkrzw_message_queue.h"
#include "tkrzw_time_util.h"
using namespace vh;
using namespace tkrzw;

struct Exact {
  char* p; size_t n;
  explicit Exact(std::string_view s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
  std::string_view V() const { return std::string_view(p, n); }
};
// Proleptic Gregorian calendar by counting days.
static int64_t Days(int64_t y, int m, int d) {
  y -= m <= 2;
  const int64_t era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400;
  const int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
struct Cal { int64_t y; int m, d, hh, mm, ss, wd; };
static Cal Split(int64_t t) {
  int64_t dn = t / 86400, s = t % 86400;
  if (s < 0) { s += 86400; dn--; }
  Cal c;
  int64_t lo = -10000000, hi = 10000000;  // the year by search
  while (hi - lo > 1) { int64_t mid = (lo + hi) / 2; if (Days(mid, 1, 1) <= dn) lo = mid; else hi = mid; }
  c.y = lo;
  c.m = 12;
  while (Days(c.y, c.m, 1) > dn) c.m--;
  c.d = (int)(dn - Days(c.y, c.m, 1)) + 1;
  c.hh = (int)(s / 3600); c.mm = (int)(s / 60 % 60); c.ss = (int)(s % 60);
  c.wd = (int)(((dn + 4) % 7 + 7) % 7);
  return c;
}
static const char* kMon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static const char* kDay[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
#define EQS(key, got, want, d) do { const std::string _g = (got), _w = (want); if (_g != _w) c.Fail(std::string("mismatch:") + key, std::string(key) + " gives " + Show(_g, 90) + ", want " + Show(_w, 90) + " for " + (d)); c.Stat("comparisons"); } while (0)
#define EQN(key, got, want, d) do { const double _g = (double)(got), _w = (double)(want); if (!(_g == _w)) c.Fail(std::string("mismatch:") + key, Fmt("%s gives %.17g, want %.17g for ", key, _g, _w) + (d)); c.Stat("comparisons"); } while (0)

static void Times(Ctx& c, Rng& g) {
  int64_t t;
  switch (g.U(6)) {
    case 0: t = g.R(-200000, 200000); break;
    case 1: t = g.R(0, 4102444800); break;
    case 2: t = Days((int64_t)g.R(0, 9999), (int)g.R(1, 12), 1) * 86400 + g.Pick({-1, 0, 1}); break;
    case 3: t = Days(g.R(0, 2500) * 4, 2, 28) * 86400 + g.R(0, 3 * 86400); break;
    case 4: t = g.R(-62135596800, 253402300799); break;
    default: t = g.R(-30000000000000, 60000000000000); break;
  }
  const int32_t td = (int32_t)(g.P(30) ? 0 : g.P(50) ? g.R(-12, 14) * 3600 : g.R(-23 * 60, 23 * 60) * 60);
  const Cal k = Split(t + td), u = Split(t);
  const std::string d = Fmt("time %lld zone %d", (long long)t, td);
  char z[16] = "Z", rz[16] = "GMT";
  if (td) { snprintf(z, sizeof z, "%c%02d:%02d", td < 0 ? '-' : '+', std::abs(td) / 3600, std::abs(td) / 60 % 60); snprintf(rz, sizeof rz, "%c%02d%02d", td < 0 ? '-' : '+', std::abs(td) / 3600, std::abs(td) / 60 % 60); }
  const std::string hms = Fmt("%02d:%02d:%02d", k.hh, k.mm, k.ss);
  auto fmt = [&](auto f) { char* b = (char*)malloc(48); memset(b, 'x', 48); const size_t n = f(b); std::string r = n < 48 && b[n] == 0 ? std::string(b, n) : Fmt("size %zu, content %s", n, Show(std::string(b, 48)).c_str()); free(b); return r; };
  const std::string simple = Fmt("%04lld/%02d/%02d ", (long long)k.y, k.m, k.d) + hms, w3 = Fmt("%04lld-%02d-%02dT", (long long)k.y, k.m, k.d) + hms,
      rfc = Fmt("%s, %02d %s %04lld ", kDay[k.wd], k.d, kMon[k.m - 1], (long long)k.y) + hms + " " + rz;
  EQS("FormatDateSimple", fmt([&](char* b) { return FormatDateSimple(b, t, td); }), simple, d);
  EQS("FormatDateW3CDTF", fmt([&](char* b) { return FormatDateW3CDTF(b, t, td); }), w3 + z, d);
  EQS("FormatDateRFC1123", fmt([&](char* b) { return FormatDateRFC1123(b, t, td); }), rfc, d);
  struct std::tm tm;
  GetUniversalCalendar(t, &tm);
  VCHECK(c, tm.tm_year + 1900 == u.y && tm.tm_mon + 1 == u.m && tm.tm_mday == u.d && tm.tm_hour == u.hh && tm.tm_min == u.mm && tm.tm_sec == u.ss && tm.tm_wday == u.wd, "mismatch:GetUniversalCalendar", "%s", d.c_str());
  EQN("MakeUniversalTime", MakeUniversalTime(tm), t, d);
  if (u.y >= 1) EQN("GetDayOfWeek", GetDayOfWeek((int32_t)u.y, u.m, u.d), u.wd, d);
  if (k.y >= 0 && k.y <= 9999) {
    EQN("ParseDateStr(simple)", ParseDateStr(Exact(simple).V()), t + td, simple);
    EQN("ParseDateStr(W3CDTF)", ParseDateStr(Exact((g.P(50) ? "" : " ") + w3 + z).V()), t, w3 + z);
    EQN("ParseDateStr(RFC1123)", ParseDateStr(Exact(rfc).V()), t, rfc);
    EQN("ParseDateStr(date)", ParseDateStr(Exact(simple.substr(0, 10)).V()), Days(k.y, k.m, k.d) * 86400, simple);
    std::string num = Fmt("%04lld%02d%02d%02d%02d%02d", (long long)k.y, k.m, k.d, k.hh, k.mm, k.ss);
    EQN("ParseDateStrYYYYMMDD", ParseDateStrYYYYMMDD(Exact(num).V(), td), t, num);
    EQN("ParseDateStrYYYYMMDD", ParseDateStrYYYYMMDD(Exact(simple).V(), td), t, simple);
    EQN("ParseDateStrYYYYMMDD", ParseDateStrYYYYMMDD(Exact(num.substr(0, 8)).V(), td), Days(k.y, k.m, k.d) * 86400 - td, num.substr(0, 8));
    EQN("ParseDateStrYYYYMMDD", ParseDateStrYYYYMMDD(Exact(num.substr(0, 4)).V(), 0), Days(k.y, 1, 1) * 86400, num.substr(0, 4));
  }
  if (t >= 0 && k.y <= 9999) {
    const int cols = (int)g.R(-1, 14);
    const double f = g.P(15) && t < 300 ? 0.9999999999999 : (double)g.U(1 << 20) / (1 << 20), wt = (double)t + f;
    double ip;
    const double fr = std::modf(wt, &ip);
    const Cal q = Split((int64_t)ip + td);
    char fb[32];
    snprintf(fb, sizeof fb, "%.12f", std::min(fr, 0.999999999999));
    const std::string tail = cols < 1 ? "" : std::string(fb + 1, 1 + std::min(cols, 12));
    const std::string qh = Fmt("%02d:%02d:%02d", q.hh, q.mm, q.ss);
    const std::string s1 = Fmt("%04lld/%02d/%02d ", (long long)q.y, q.m, q.d) + qh + tail, s2 = Fmt("%04lld-%02d-%02dT", (long long)q.y, q.m, q.d) + qh + tail + z;
    EQS("FormatDateSimpleWithFrac", fmt([&](char* b) { return FormatDateSimpleWithFrac(b, wt, td, cols); }), s1, Fmt("%.15g cols %d ", wt, cols) + d);
    EQS("FormatDateW3CDTFWithFrac", fmt([&](char* b) { return FormatDateW3CDTFWithFrac(b, wt, td, cols); }), s2, Fmt("%.15g cols %d ", wt, cols) + d);
    const double pt = ParseDateStr(Exact(s2).V()), eps = cols < 1 ? 1 : std::pow(10, -std::min(cols, 12)) + 1e-4 * (t > 1000000000) + 1e-6;
    if (q.y >= 0) VCHECK(c, std::fabs(pt - wt) <= eps, "mismatch:ParseDateStr(frac)", "%s gives %.9f, want %.9f", s2.c_str(), pt, wt);
  }
  // numbers with units
  {
    const double v = g.P(50) ? (double)g.R(-100000, 100000) : (double)g.R(-400, 400) / 4;
    static const struct { const char* s; double m; } un[] = {{"", 1}, {"s", 1}, {"S", 1}, {"m", 60}, {"M", 60}, {"h", 3600}, {"H", 3600}, {"d", 86400}, {"D", 86400}};
    auto& x = un[g.U(9)];
    const std::string s = (g.P(20) ? "  " : "") + (g.P(20) && v >= 0 ? std::string("+") : std::string()) + Fmt(v == (int64_t)v ? "%.0f" : "%.2f", v) + (g.P(20) ? " " : "") + x.s;
    EQN("ParseDateStr(number)", ParseDateStr(Exact(s).V()), v * x.m, s);
    const uint64_t h = g.Next() >> g.R(12, 60);
    const std::string hs = Fmt(g.P(50) ? "0x%llx" : "0X%llX", (unsigned long long)h);
    EQN("ParseDateStr(hex)", ParseDateStr(Exact(hs).V()), h, hs);
    static const struct { const char* s; double m; } qu[] = {{"", 1}, {"d", 86400000}, {"D", 86400000}, {"h", 3600000}, {" H", 3600000}, {"m", 60000}, {"M", 60000}, {"s", 1000}, {"S", 1000}};
    auto& y = qu[g.U(9)];
    const int64_t base = g.R(0, 4000000000000);
    const double a = std::fabs(v);
    const int sign = (int)g.U(3);
    const std::string e = std::string(g.P(20) ? " " : "") + (sign == 1 ? "+" : sign == 2 ? "-" : "") + Fmt(a == (int64_t)a ? "%.0f" : "%.2f", a) + y.s + (g.P(20) ? " " : "");
    const double want = std::trunc((sign == 2 ? -a : a) * y.m + (sign ? (double)base : 0));
    EQN("ParseTimestamp", MessageQueue::ParseTimestamp(Exact(e).V(), base), want, e + Fmt(" base %lld", (long long)base));
    const double df = g.P(50) ? v : v * 1000;
    const double ad = std::fabs(df);
    EQS("MakeRelativeTimeExpr", MakeRelativeTimeExpr(df), ad >= 86400 ? Fmt("%.1f days", df / 86400) : ad >= 3600 ? Fmt("%.1f hours", df / 3600) : ad >= 60 ? Fmt("%.1f minutes", df / 60) : Fmt("%.1f seconds", df), Fmt("%g", df));
  }
  // arbitrary input in exactly sized buffers
  for (int i = 0; i < 6; i++) {
    std::string s = g.Pick({w3 + z, rfc, simple, std::string("12.5d"), std::string("-3h"), std::string("0x1f")});
    const int n = (int)g.R(1, 3);
    for (int j = 0; j < n && !s.empty(); j++) { const size_t p = g.U(s.size()); if (g.P(40)) s.resize(p); else if (g.P(50)) s[p] = "0123456789 -/:.,+TZGMT\0x"[g.U(24)]; else s[p] = (char)g.U(256); }
    Exact e(s);
    const double r = ParseDateStr(e.V()), r2 = ParseDateStrYYYYMMDD(e.V(), 0);
    c.Stat("garbage");
    c.Sig((uint64_t)(std::isnan(r) ? 1 : 0) + (std::isnan(r2) ? 2 : 0));
  }
  if (g.P(2)) {
    const int off = (int)g.R(-14, 14);
    const std::string tz = Fmt("XXX%d", -off);
    setenv("TZ", tz.c_str(), 1);
    tzset();
    const int32_t diff = GetLocalTimeDifference(false);
    struct std::tm lt;
    GetLocalCalendar(t, &lt);
    setenv("TZ", "UTC0", 1);
    tzset();
    EQN("GetLocalTimeDifference", diff, off * 3600, tz);
    const Cal l = Split(t + off * 3600);
    VCHECK(c, lt.tm_year + 1900 == l.y && lt.tm_mon + 1 == l.m && lt.tm_mday == l.d && lt.tm_hour == l.hh, "mismatch:GetLocalCalendar", "%s in %s", d.c_str(), tz.c_str());
    GetLocalTimeDifference(false);
  }
  c.Sig((uint64_t)t);
}

static std::string RandPath(Rng& g) {
  static const char* el[] = {"a", "b", ".", "..", "", "ab.c", "...", ".x", "long-name.tar.gz", "x."};
  std::string p = g.P(50) ? "/" : "";
  const int n = (int)g.U(7);
  for (int i = 0; i < n; i++) { if (i) p += "/"; p += el[g.U(10)]; }
  if (g.P(20)) p += "/";
  return p;
}
static void Paths(Ctx& c, Rng& g) {
  const std::string p = RandPath(g);
  const bool abs = !p.empty() && p[0] == '/';
  std::vector<std::string> el, out;
  std::string cur;
  for (char ch : p + "/") if (ch == '/') { if (!cur.empty()) el.push_back(cur); cur.clear(); } else cur.push_back(ch);
  for (auto& e : el) {
    if (e == ".") continue;
    if (e == ".." && !out.empty() && out.back() != "..") { out.pop_back(); continue; }
    if (e == ".." && abs && out.empty()) continue;
    out.push_back(e);
  }
  std::string want = abs ? "/" : "";
  for (size_t i = 0; i < out.size(); i++) want += (i ? "/" : "") + out[i];
  EQS("NormalizePath", NormalizePath(p), want, Show(p));
  EQS("NormalizePath", NormalizePath(want), want, Show(want));
  std::string tr = p;
  while (tr.size() > 1 && tr.back() == '/') tr.pop_back();
  const size_t sl = tr.rfind('/');
  EQS("PathToBaseName", PathToBaseName(p), tr == "/" || sl == std::string::npos ? tr : tr.substr(sl + 1), Show(p));
  EQS("PathToDirectoryName", PathToDirectoryName(p), tr == "/" ? "/" : sl == std::string::npos ? "." : sl == 0 ? "/" : tr.substr(0, sl), Show(p));
  const std::string bn = PathToBaseName(p);
  EQS("PathToExtension", PathToExtension(p), bn.find('.') == std::string::npos ? "" : bn.substr(bn.rfind('.') + 1), Show(p));
  const std::string q = RandPath(g);
  EQS("JoinPath", JoinPath(p, q), q.empty() ? p : q[0] == '/' ? q : p.empty() ? "/" + q : p.back() == '/' ? p + q : p + "/" + q, Show(p) + " and " + Show(q));
  c.Sig(p);
}

// File operations in the scratch directory against a tree model: path -> content, or a directory.
static void Tree(Ctx& c, Rng& g) {
  const std::string root = c.Path("t");
  VCHECK(c, MakeDirectory(root) == Status::SUCCESS, "status:MakeDirectory", "root");
  std::map<std::string, std::string> files;
  std::set<std::string> dirs = {""};
  auto ok = [&](const Status& s, bool want, const std::string& what) {
    c.T(what + " -> " + std::string(s));
    VCHECK(c, (s == Status::SUCCESS) == want, "status:" + what.substr(0, what.find(' ')), "%s: %s, want %s", what.c_str(), std::string(s).c_str(), want ? "success" : "failure");
  };
  static const char* nm[] = {"a", "b", "c.txt", "d"};
  auto path = [&]() { std::string p; const int n = (int)g.R(1, 3); for (int i = 0; i < n; i++) p += std::string("/") + nm[g.U(4)]; return p; };
  auto parent = [&](const std::string& p) { return p.substr(0, p.rfind('/')); };
  auto empty = [&](const std::string& d) { for (auto& f : files) if (f.first.compare(0, d.size() + 1, d + "/") == 0) return false; for (auto& x : dirs) if (x.size() > d.size() && x.compare(0, d.size() + 1, d + "/") == 0) return false; return true; };
  auto content = [&]() { std::string s(g.P(80) ? g.U(300) : g.U(200000), 0); const char b = (char)g.U(256); for (size_t i = 0; i < s.size(); i++) s[i] = (char)(b + i * 7 + i / 251); return s; };
  for (int step = 0; step < 60; step++) {
    const std::string p = path(), q = path(), fp = root + p, fq = root + q;
    const bool pf = files.count(p), pd = dirs.count(p), par = dirs.count(parent(p));
    switch (g.U(13)) {
      case 0: case 1: { const std::string s = content(); const bool w = par && !pd; ok(WriteFile(fp, s), w, "WriteFile " + p); if (w) files[p] = s; break; }
      case 2: { const std::string s = content(); const std::string tmp = g.P(50) ? "" : root + "/tmpfile"; if (tmp.empty() && dirs.count(p + ".tmp")) break; const bool w = par && !pd;
        ok(WriteFileAtomic(fp, s, tmp), w, "WriteFileAtomic " + p); if (w) files[p] = s; VCHECK(c, !Exists(tmp.empty() ? fp + ".tmp" : tmp), "mismatch:WriteFileAtomic", "the temporary file is left"); break; }
      case 3: { std::string s = "old"; const int64_t mx = g.P(60) ? INT32MAX : (int64_t)g.U(300); const Status st = ReadFile(fp, &s, mx); ok(st, pf || (pd && mx == 0), "ReadFile " + p); if (pf) EQS("ReadFile", s, files[p].substr(0, (size_t)mx), p);
        EQS("ReadFileSimple", ReadFileSimple(fp, "dflt", mx), pf ? files[p].substr(0, (size_t)mx) : pd && mx == 0 ? "" : "dflt", p); break; }
      case 4: { if (pd) break; const int64_t n = (int64_t)g.U(400); ok(TruncateFile(fp, n), pf, "TruncateFile " + p); if (pf) files[p].resize((size_t)n); break; }
      case 5: ok(RemoveFile(fp), pf, "RemoveFile " + p); files.erase(p); break;
      case 6: {
        const bool qf = files.count(q), qd = dirs.count(q);
        bool w = false;
        if (pf) w = dirs.count(parent(q)) && !qd;
        else if (pd) w = dirs.count(parent(q)) && !qf && !(q.compare(0, p.size() + 1, p + "/") == 0) && (p == q || !qd || empty(q));
        ok(RenameFile(fp, fq), w, "RenameFile " + p + " to " + q);
        if (w && p != q) {
          if (pf) { files[q] = files[p]; files.erase(p); }
          else {
            std::map<std::string, std::string> nf; std::set<std::string> nd;
            for (auto& f : files) nf[f.first.compare(0, p.size() + 1, p + "/") == 0 ? q + f.first.substr(p.size()) : f.first] = f.second;
            for (auto& x : dirs) nd.insert(x == p || x.compare(0, p.size() + 1, p + "/") == 0 ? q + x.substr(p.size()) : x);
            files = nf; dirs = nd;
          }
        }
        break;
      }
      case 7: { if (p == q) break; const bool w = pf && dirs.count(parent(q)) && !dirs.count(q); if (pd) break; ok(CopyFileData(fp, fq), w, "CopyFileData " + p + " to " + q); if (w) files[q] = files[p]; break; }
      case 8: { const bool rec = g.P(50); bool w;
        if (!rec) { w = par && !pd && !pf; if (w) dirs.insert(p); }
        else { w = true; std::string x; for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') { x = p.substr(0, i); if (files.count(x)) { w = false; break; } dirs.insert(x); } }
        ok(MakeDirectory(fp + (rec && g.P(20) ? "/./" : ""), rec), w, Fmt("MakeDirectory(%d) ", rec) + p); break; }
      case 9: { const bool rec = g.P(50); const bool w = pd && (rec || empty(p)); ok(RemoveDirectory(fp, rec), w, Fmt("RemoveDirectory(%d) ", rec) + p);
        if (w) { for (auto it = files.begin(); it != files.end();) it = it->first.compare(0, p.size() + 1, p + "/") == 0 ? files.erase(it) : std::next(it);
                 for (auto it = dirs.begin(); it != dirs.end();) it = *it == p || it->compare(0, p.size() + 1, p + "/") == 0 ? dirs.erase(it) : std::next(it); } break; }
      case 10: { std::vector<std::string> ch = {"old"}; const Status st = ReadDirectory(fp, &ch); ok(st, pd, "ReadDirectory " + p);
        if (pd) { std::set<std::string> w; for (auto& f : files) if (parent(f.first) == p) w.insert(f.first.substr(p.size() + 1)); for (auto& x : dirs) if (!x.empty() && parent(x) == p) w.insert(x.substr(p.size() + 1));
          VCHECK(c, std::set<std::string>(ch.begin(), ch.end()) == w && ch.size() == w.size(), "mismatch:ReadDirectory", "%s has %zu children, want %zu", p.c_str(), ch.size(), w.size()); } break; }
      case 11: { std::string rp; const Status st = GetRealPath(fp + (pd ? "/." : ""), &rp); ok(st, pf || pd, "GetRealPath " + p); if (pf || pd) { char* x = realpath(fp.c_str(), nullptr); EQS("GetRealPath", rp, std::string(x), p); free(x); } ok(SynchronizeFile(fp), pf || pd, "SynchronizeFile " + p); break; }
      default: {
        FileStatus fs; const Status st = ReadFileStatus(fp, &fs);
        ok(st, pf || pd, "ReadFileStatus " + p);
        if (pf || pd) VCHECK(c, fs.is_file == pf && fs.is_directory == pd && (!pf || fs.file_size == (int64_t)files[p].size()), "mismatch:ReadFileStatus", "%s", p.c_str());
        EQN("PathIsFile", PathIsFile(fp), pf, p); EQN("PathIsDirectory", PathIsDirectory(fp), pd, p);
        EQN("GetFileSize", GetFileSize(fp), pf ? (int64_t)files[p].size() : -1, p);
      }
    }
  }
  for (auto& f : files) { std::string s; VCHECK(c, ReadAll(root + f.first, &s) && s == f.second, "mismatch:content", "%s differs from the model", f.first.c_str()); }
  {
    const std::string base = c.Path("tmpbase");
    MakeDirectory(base);
    std::string tp;
    std::set<std::string> uniq;
    {
      TemporaryDirectory td(true, "pre-", base);
      VCHECK(c, td.CreationStatus() == Status::SUCCESS && PathIsDirectory(td.Path()) && PathToBaseName(td.Path()).compare(0, 4, "pre-") == 0, "mismatch:TemporaryDirectory", "creation");
      tp = td.Path();
      for (int i = 0; i < 50; i++) VCHECK(c, uniq.insert(td.MakeUniquePath("x", ".y")).second, "mismatch:MakeUniquePath", "a path is repeated");
      WriteFile(*uniq.begin(), "data"); MakeDirectory(tp + "/sub"); WriteFile(tp + "/sub/f", "x");
      if (g.P(50)) { VCHECK(c, td.CleanUp() == Status::SUCCESS && ListDir(tp).empty(), "mismatch:CleanUp", "content remains"); }
    }
    VCHECK(c, !Exists(tp) && Exists(base), "mismatch:TemporaryDirectory", "the directory remains after destruction");
  }
  c.Stat("tree_steps", 60);
  c.Sig((uint64_t)files.size());
}

static void Case(Ctx& c, Rng& g, int64_t) {
  setenv("TZ", "UTC0", 1);
  tzset();
  const int t = (int)g.U(10);
  if (t < 5) { Describe(c, "times"); c.Reach("times"); for (int i = 0; i < 60; i++) Times(c, g); }
  else if (t < 7) { Describe(c, "paths"); c.Reach("paths"); for (int i = 0; i < 300; i++) Paths(c, g); }
  else {
    Describe(c, "file tree");
    c.Reach("tree");
    g_escaped.clear();
    Tree(c, g);
    VCHECK(c, g_escaped.empty(), "mismatch:escaped", "a call reached outside of the given directory: %s", g_escaped.c_str());
  }
  c.Sig(g.Next());
  c.nontrivial = true;
}
int main(int argc, char** argv) { return Main(argc, argv, "C32", Case); }
