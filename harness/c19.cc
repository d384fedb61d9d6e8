// C19: string search, regular expressions, edit distance and searches over databases and text files against brute force.
#include "anydb.h"
#include "tkrzw_dbm_common_impl.h"
using namespace vh;
using namespace tkrzw;

struct Exact {
  char* p; size_t n;
  explicit Exact(std::string_view s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
  std::string_view V() const { return std::string_view(p, n); }
};
static std::string Low(std::string_view s) { std::string r(s); for (auto& ch : r) if (ch >= 'A' && ch <= 'Z') ch += 32; return r; }
static bool Al(char ch) { return (ch >= '0' && ch <= '9') || (ch >= 'A' && ch <= 'Z') || (ch >= 'a' && ch <= 'z'); }

// All occurrences by definition.
static std::vector<int32_t> Occ(const std::string& t, const std::string& p, size_t max) {
  std::vector<int32_t> r;
  for (size_t i = 0; i + std::max<size_t>(p.size(), 1) <= t.size(); i++) {  // an empty pattern occurs before every byte
    bool ok = true;
    for (size_t j = 0; j < p.size() && ok; j++) ok = t[i + j] == p[j];
    if (ok) { r.push_back((int32_t)i); if (max && r.size() >= max) break; }
  }
  return r;
}
static int32_t WordPos(const std::string& t, const std::string& p) {
  if (p.empty()) return 0;
  for (int32_t i : Occ(t, p, 0)) {
    const size_t e = i + p.size();
    if (i > 0 && Al(t[i - 1]) && Al(p[0])) continue;
    if (e < t.size() && Al(t[e]) && Al(p.back())) continue;
    return i;
  }
  return -1;
}
template <typename S>
static int32_t Lev(const S& a, const S& b) {
  std::vector<int32_t> prev(b.size() + 1), cur(b.size() + 1);
  for (size_t j = 0; j <= b.size(); j++) prev[j] = (int32_t)j;
  for (size_t i = 1; i <= a.size(); i++) {
    cur[0] = (int32_t)i;
    for (size_t j = 1; j <= b.size(); j++) cur[j] = std::min(std::min(prev[j], cur[j - 1]) + 1, prev[j - 1] + (a[i - 1] == b[j - 1] ? 0 : 1));
    std::swap(prev, cur);
  }
  return prev[b.size()];
}

// A small regular expression whose meaning is evaluated directly.
struct Rx {
  struct Atom { std::string chars; bool any; char rep; };
  std::vector<Atom> atoms;
  bool head = false, tail = false, icase = false;
  static Rx Make(Rng& g, const std::string& alpha) {
    Rx r;
    r.head = g.P(20); r.tail = g.P(20); r.icase = g.P(25);
    const int n = (int)g.R(1, 4);
    for (int i = 0; i < n; i++) {
      Atom a; a.any = g.P(20); a.rep = g.P(30) ? g.Pick({'*', '?', '+'}) : 0;
      const int m = g.P(70) ? 1 : 2;
      for (int k = 0; k < m; k++) a.chars.push_back(alpha[g.U(alpha.size())]);
      r.atoms.push_back(a);
    }
    return r;
  }
  std::string Str() const {
    std::string s = icase ? "(?i)" : "";
    if (head) s += "^";
    for (auto& a : atoms) { s += a.any ? "." : a.chars.size() == 1 ? a.chars : "[" + a.chars + "]"; if (a.rep) s.push_back(a.rep); }
    if (tail) s += "$";
    return s;
  }
  bool One(const Atom& a, char ch) const {
    if (a.any) return ch != '\n' && ch != '\r';
    const std::string x = icase ? Low(a.chars) : a.chars;
    return x.find(icase ? Low(std::string(1, ch))[0] : ch) != std::string::npos;
  }
  bool At(const std::string& t, size_t p, size_t k) const {
    if (k == atoms.size()) return !tail || p == t.size();
    const Atom& a = atoms[k];
    if (a.rep != '+' && a.rep != 0 && At(t, p, k + 1)) return true;
    if (p >= t.size() || !One(a, t[p])) return false;
    if (At(t, p + 1, k + 1)) return true;
    if (a.rep == '*' || a.rep == '+') { Rx r = *this; r.atoms[k].rep = '*'; return r.At(t, p + 1, k); }
    return false;
  }
  int32_t Search(const std::string& t) const { for (size_t p = 0; p <= t.size(); p++) { if (At(t, p, 0)) return (int32_t)p; if (head) break; } return -1; }
};

static std::string Alpha(Rng& g) {
  return g.Pick<std::string>({"a", "ab", "abc", "aAbB", "aAbB0 ", "aA_-", std::string("\0a\xff", 3), "\xe3\x81\x82" "a", "zZ@[`{/:09"});
}
static std::string Word(Rng& g, const std::string& al, size_t max) {
  std::string s(g.U(max + 1), 0);
  const bool all = g.P(4);
  for (auto& ch : s) ch = all ? (char)g.U(256) : al[g.U(al.size())];
  if (g.P(25) && s.size() > 3) { const size_t per = g.R(1, 3); for (size_t i = per; i < s.size(); i++) if (!g.P(3)) s[i] = s[i - per]; }
  return s;
}

static void Strings(Ctx& c, Rng& g) {
  const std::string al = Alpha(g);
  const std::string t = Word(g, al, g.P(85) ? 24 : g.P(70) ? 300 : 3000);
  std::string p = g.P(55) && !t.empty() ? t.substr(g.U(t.size()), g.P(85) ? g.R(0, 8) : g.R(1, 900)) : Word(g, al, g.P(90) ? 5 : 900);
  if (g.P(15) && !p.empty()) p[g.U(p.size())] = al[g.U(al.size())];
  Exact et(t), ep(p);
  const std::string_view tv = et.V(), pv = ep.V();
  const size_t max = g.P(60) ? 0 : g.R(1, 4);
  const std::vector<int32_t> occ = Occ(t, p, 0), lim = Occ(t, p, max);
  const int32_t first = p.empty() ? 0 : occ.empty() ? -1 : occ[0];
  auto d = [&]() { return "pattern " + Show(p, 60) + " in text " + Show(t, 120); };
#define ONE(F, want) do { const auto _r = F(tv, pv); if (_r != (want)) c.Fail("mismatch:" #F, Fmt(#F " says %d, want %d: %s", (int)_r, (int)(want), d().c_str())); c.Stat("comparisons"); } while (0)
  ONE(StrSearch, first); ONE(StrSearchDoubleLoop, first); ONE(StrSearchMemchr, first); ONE(StrSearchMemmem, first);
  ONE(StrSearchKMP, first); ONE(StrSearchBM, first); ONE(StrSearchRK, first); ONE(StrSearchZ, first);
  ONE(StrContains, first >= 0);
  const std::string lt = Low(t), lp = Low(p);
  const auto locc = Occ(lt, lp, 1);
  const int32_t lfirst = p.empty() ? 0 : locc.empty() ? -1 : locc[0], w = WordPos(t, p), lw = WordPos(lt, lp);
  ONE(StrCaseSearch, lfirst); ONE(StrCaseContains, lfirst >= 0);
  ONE(StrWordSearch, w); ONE(StrWordContains, w >= 0);
  ONE(StrCaseWordSearch, lw); ONE(StrCaseWordContains, lw >= 0);
#define ALL(F) do { const auto _r = F(tv, pv, max); if (_r != lim) c.Fail("mismatch:" #F, Fmt(#F " finds %zu (limit %zu), want %zu: %s", _r.size(), max, lim.size(), d().c_str())); c.Stat("comparisons"); } while (0)
  ALL(StrSearchWhole); ALL(StrSearchWholeKMP); ALL(StrSearchWholeBM); ALL(StrSearchWholeRK);
  std::vector<std::string> ps;
  const int n = (int)g.U(5);
  for (int i = 0; i < n; i++) ps.push_back(i == 0 ? p : g.P(20) ? ps[g.U(ps.size())] : g.P(50) && !t.empty() ? t.substr(g.U(t.size()), g.R(0, 6)) : Word(g, al, 6));
  std::vector<std::vector<int32_t>> want;
  bool has = false, lhas = false, whas = false, lwhas = false;
  std::vector<std::string> lps;
  for (auto& x : ps) {
    want.push_back(Occ(t, x, max));
    has |= x.empty() || !want.back().empty(); lhas |= x.empty() || !Occ(lt, Low(x), 1).empty(); whas |= WordPos(t, x) >= 0; lwhas |= WordPos(lt, Low(x)) >= 0;
    lps.push_back(Low(x));
  }
#define BAT(F) do { if (F(tv, ps, max) != want) c.Fail("mismatch:" #F, Fmt(#F " with %zu patterns, limit %zu: ", ps.size(), max) + d()); c.Stat("comparisons"); } while (0)
  BAT(StrSearchBatch); BAT(StrSearchBatchKMP); BAT(StrSearchBatchBM); BAT(StrSearchBatchRK);
#define CB(F, l, w) do { if (F(tv, l) != (w)) c.Fail("mismatch:" #F, Fmt(#F " with %zu patterns is not %d: ", ps.size(), (int)(w)) + d()); c.Stat("comparisons"); } while (0)
  CB(StrContainsBatch, ps, has); CB(StrCaseContainsBatch, ps, lhas); CB(StrWordContainsBatch, ps, whas); CB(StrCaseWordContainsBatch, ps, lwhas);
  CB(StrCaseWordContainsBatchLower, lps, lwhas);
  if (t.size() < 200 && p.size() < 200) {
    const int32_t dist = EditDistanceLev<std::string_view>(tv, pv), wd = Lev(t, p);
    VCHECK(c, dist == wd, "mismatch:EditDistanceLev", "distance %d, want %d: %s", dist, wd, d().c_str());
    std::vector<uint32_t> a, b;
    for (auto ch : t) a.push_back((uint32_t)ch * 70001u);
    for (auto ch : p) b.push_back((uint32_t)ch * 70001u);
    VCHECK(c, EditDistanceLev(a, b) == wd, "mismatch:EditDistanceLev", "of code points: %s", d().c_str());
  }
  if (g.P(10)) {
    const std::string tt = Word(g, "abcABC01", 20);
    const Rx r = Rx::Make(g, "abcABC01");
    const int32_t pos = StrSearchRegex(Exact(tt).V(), r.Str()), wp = r.Search(tt);
    VCHECK(c, pos == wp, "mismatch:StrSearchRegex", "pattern %s on %s gives %d, want %d", r.Str().c_str(), tt.c_str(), pos, wp);
    VCHECK(c, StrSearchRegex(tt, "a[") == -2, "mismatch:StrSearchRegex", "a broken pattern is accepted");
  }
  c.Sig(t); c.Sig(p);
}

static const char* kModes[] = {"contain", "begin", "end", "regex", "edit", "editbin", "containcase", "containword", "containcaseword",
                               "contain*", "containcase*", "containword*", "containcaseword*", "upper", "upperinc", "lower", "lowerinc", "nonesuch"};

struct Query { std::string mode, pattern; Rx rx; bool bad_rx = false; };
static Query MakeQuery(Rng& g, const std::vector<std::string>& pool, const std::string& al) {
  Query q;
  q.mode = kModes[g.U(g.P(2) ? 18 : 17)];
  auto pat = [&]() -> std::string { if (g.P(60) && !pool.empty()) { auto& k = pool[g.U(pool.size())]; if (k.empty()) return k; const size_t i = g.P(40) ? 0 : g.U(k.size()); return k.substr(i, g.R(0, 5)); } return Word(g, al, 4); };
  q.pattern = pat();
  if (q.mode == "edit" || q.mode == "editbin" || q.mode.compare(0, 2, "up") == 0 || q.mode.compare(0, 2, "lo") == 0) { if (g.P(60) && !pool.empty()) q.pattern = pool[g.U(pool.size())]; }
  if (q.mode == "regex") {
    if (g.P(5)) { q.bad_rx = true; q.pattern = g.Pick({"a[", "(?i", "(?zz)a", "*a(", "(a"}); }
    else { q.rx = Rx::Make(g, "abAB01"); q.pattern = q.rx.Str(); }
  }
  if (q.mode.back() == '*') { const int n = (int)g.U(4); for (int i = 0; i < n; i++) q.pattern += "\n" + pat(); }
  return q;
}
static bool Matches(const Query& q, const std::string& k) {
  const std::string& p = q.pattern;
  std::vector<std::string> ps;
  if (q.mode.back() == '*') { std::string cur; for (char ch : p + "\n") if (ch == '\n') { if (!cur.empty()) ps.push_back(cur); cur.clear(); } else cur.push_back(ch); }
  else ps.push_back(p);
  const bool cs = q.mode.find("case") != std::string::npos, wd = q.mode.find("word") != std::string::npos;
  if (q.mode == "begin") return k.compare(0, p.size(), p) == 0;
  if (q.mode == "end") return k.size() >= p.size() && k.compare(k.size() - p.size(), p.size(), p) == 0;
  if (q.mode == "regex") return q.rx.Search(k) >= 0;
  for (auto& x : ps) {
    const std::string a = cs ? Low(k) : k, b = cs ? Low(x) : x;
    if (wd ? WordPos(a, b) >= 0 : b.empty() || !Occ(a, b, 1).empty()) return true;
  }
  return false;
}
// Judges a list of matches; keys: all candidates in their order; ordered: the order is part of the contract.
static void Judge(Ctx& c, const char* what, const Query& q, size_t cap, const std::vector<std::string>& keys, bool ordered, const Status& st, const std::vector<std::string>& got) {
  const std::string d = Fmt("%s mode=%s pattern=%s capacity=%zu over %zu: %s, %zu found", what, q.mode.c_str(), Show(q.pattern, 50).c_str(), cap, keys.size(), std::string(st).c_str(), got.size());
  if (q.mode == "nonesuch") { VCHECK(c, st == Status::INVALID_ARGUMENT_ERROR, "mismatch:unknown-mode", "%s", d.c_str()); return; }
  if (q.bad_rx) { VCHECK(c, st == Status::INVALID_ARGUMENT_ERROR, "mismatch:broken-regex", "%s", d.c_str()); return; }
  const bool range = q.mode[0] == 'u' || q.mode[0] == 'l';
  VCHECK(c, st == Status::SUCCESS, "status:" + q.mode, "%s", d.c_str());
  std::vector<std::string> want;
  const bool edit = q.mode == "edit" || q.mode == "editbin";
  if (edit) {
    std::vector<std::pair<int32_t, std::string>> h;
    for (auto& k : keys) h.emplace_back(q.mode == "edit" ? Lev(ConvertUTF8ToUCS4(q.pattern), ConvertUTF8ToUCS4(k)) : Lev(q.pattern, k), k);
    std::sort(h.begin(), h.end());
    for (auto& x : h) want.push_back(x.second);
  } else if (range) {
    const bool up = q.mode[0] == 'u', inc = q.mode.size() > 5;
    for (auto& k : keys) { const int cmp = k.compare(q.pattern); if ((cmp == 0 && inc) || (up ? cmp > 0 : cmp < 0)) want.push_back(k); }
    if (!up) std::reverse(want.begin(), want.end());
  } else {
    for (auto& k : keys) if (Matches(q, k)) want.push_back(k);
  }
  const size_t n = cap == 0 ? want.size() : std::min(cap, want.size());
  VCHECK(c, got.size() == n, "mismatch:" + q.mode, "%s, want %zu", d.c_str(), n);
  if (ordered || edit || range) {
    for (size_t i = 0; i < n; i++) VCHECK(c, got[i] == want[i], "mismatch:" + q.mode, "%s; item %zu is %s, want %s", d.c_str(), i, Show(got[i]).c_str(), Show(want[i]).c_str());
  } else {
    std::multiset<std::string> w(want.begin(), want.end());
    for (auto& x : got) { auto it = w.find(x); VCHECK(c, it != w.end(), "mismatch:" + q.mode, "%s; unexpected %s", d.c_str(), Show(x).c_str()); w.erase(it); }
  }
  c.Stat("searches"); c.Stat("found", (int64_t)n);
  c.Reach("mode:" + q.mode);
}

static void Databases(Ctx& c, Rng& g) {
  AnyOpt o;
  o.classes = {"HashDBM", "TreeDBM", "SkipDBM", "TinyDBM", "BabyDBM", "CacheDBM", "StdHashDBM", "StdTreeDBM", "PolyDBM", "ShardDBM"};
  o.orders = false; o.small = true; o.tiny_trees = g.P(60);
  AnyDB a = AnyDB::Make(g, c.dir, o);
  Describe(c, a.desc);
  c.Reach("class:" + a.cls);
  auto db = a.New();
  Status st = a.Open(db.get());
  VCHECK(c, st == Status::SUCCESS, "status:open", "%s", std::string(st).c_str());
  const std::string al = g.P(50) ? "abAB01" : Alpha(g);
  std::set<std::string> m;
  const int n = (int)g.Pick({0, 1, 3, 20, 60, 150});
  for (int i = 0; i < n; i++) { std::string k = Word(g, al, g.P(90) ? 8 : 40); if (g.P(20)) k += " " + Word(g, al, 4); if (m.insert(k).second || !a.skip) db->Set(k, "v"); }
  if (!a.skip) for (int i = 0; i < n / 4; i++) { auto it = m.lower_bound(Word(g, al, 3)); if (it != m.end()) { db->Remove(*it); m.erase(it); } }
  if (a.skip) db->Synchronize(false);
  std::vector<std::string> keys(m.begin(), m.end());
  for (int i = 0; i < 12; i++) {
    Query q = MakeQuery(g, keys, al);
    const size_t cap = g.P(50) ? 0 : g.R(1, 6);
    std::vector<std::string> got;
    if (g.P(10)) got.push_back("left over");
    const bool range = q.mode[0] == 'u' || q.mode[0] == 'l';
    if (range && !a.ordered) { VCHECK(c, SearchDBMModal(db.get(), q.mode, q.pattern, &got, cap) != Status::SUCCESS, "status:range-unordered", "%s succeeds", q.mode.c_str()); continue; }
    const Exact ep(q.pattern);
    st = SearchDBMModal(db.get(), q.mode, q.mode == "regex" ? std::string_view(q.pattern) : ep.V(), &got, cap);
    Judge(c, a.cls.c_str(), q, cap, keys, a.ordered && q.mode == "begin", st, got);
  }
  a.Close(db.get());
  c.Sig((uint64_t)keys.size());
}

static void Texts(Ctx& c, Rng& g) {
  FileCfg fc = FileCfg::Make(g, true);
  fc.block = 0; fc.options = 0;
  Describe(c, "text file " + fc.Str());
  c.Reach("text-file");
  const std::string al = g.P(50) ? "abAB01" : Alpha(g);
  std::vector<std::string> lines;
  std::string text;
  const int n = (int)g.Pick({0, 1, 5, 40});
  for (int i = 0; i < n; i++) {
    std::string l = Word(g, al, g.P(80) ? 10 : g.P(80) ? 80 : 5000);
    for (auto& ch : l) if (ch == '\n') ch = 'x';
    lines.push_back(l);
    text += l;
    if (i < n - 1 || g.P(60) || l.empty()) text += "\n";
  }
  WriteAll(c.Path("lines.txt"), text);
  auto f = fc.New();
  Status st = f->Open(c.Path("lines.txt"), false);
  VCHECK(c, st == Status::SUCCESS, "status:open", "%s", std::string(st).c_str());
  for (int i = 0; i < 10; i++) {
    Query q = MakeQuery(g, lines, al);
    if (q.mode[0] == 'u' || q.mode[0] == 'l') q.mode = "nonesuch";
    if ((q.mode == "edit" || q.mode == "editbin") && q.pattern.size() > 100) q.pattern.resize(100);
    if (q.mode == "regex" && al != "abAB01") continue;
    bool big = false;
    for (auto& l : lines) big |= l.size() > 1000;
    if (big && q.mode == "regex") continue;  // the C++ library recurses per character
    const size_t cap = g.P(50) ? 0 : g.R(1, 6);
    std::vector<std::string> got;
    if (g.P(10)) got.push_back("left over");
    const Exact ep(q.pattern);
    st = SearchTextFileModal(f.get(), q.mode, q.mode == "regex" ? std::string_view(q.pattern) : ep.V(), &got, cap);
    Judge(c, "text", q, cap, lines, true, st, got);
  }
  f->Close();
  c.Sig(text);
}

static void Case(Ctx& c, Rng& g, int64_t) {
  const int t = (int)g.U(10);
  if (t < 4) { Describe(c, "strings"); c.Reach("strings"); for (int i = 0; i < 60; i++) Strings(c, g); }
  else if (t < 8) Databases(c, g);
  else Texts(c, g);
  c.Sig(g.Next());
  c.nontrivial = true;
}
int main(int argc, char** argv) { return Main(argc, argv, "C19", Case); }
