// C25: exports, imports and live backups carry exactly the records.
#include <thread>
#include "anydb.h"
#include "tkrzw_dbm_common_impl.h"
using namespace vh;
using namespace tkrzw;
typedef std::map<std::string, std::string> SMap;
typedef std::vector<std::pair<std::string, std::string>> Recs;

static Recs List(DBM* d) {
  Recs r;
  d->ProcessEach([&](std::string_view k, std::string_view v) -> std::string_view { if (k.data() != DBM::RecordProcessor::NOOP.data()) r.emplace_back(k, v); return DBM::RecordProcessor::NOOP; }, false);
  return r;
}
static Recs Sorted(Recs r) { std::sort(r.begin(), r.end()); return r; }
static bool Var(const std::string& s, size_t* p, uint64_t* n) {
  *n = 0;
  while (*p < s.size()) { const unsigned char b = s[(*p)++]; *n = (*n << 7) | (b & 127); if (b < 128) return true; }
  return false;
}
// Independent parsers of the formats.
static bool ParseFlat(const std::string& s, std::vector<std::string>* out) {
  size_t p = 0;
  while (p < s.size()) {
    const unsigned char m = s[p++]; uint64_t n = 0;
    if ((m != 0xFF && m != 0xFE) || !Var(s, &p, &n) || p + n > s.size()) return false;
    if (m == 0xFF) out->push_back(s.substr(p, n));
    p += n;
  }
  return true;
}
static std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> r; size_t b = 0;
  for (size_t i = 0; i < s.size(); i++) if (s[i] == '\n') { r.push_back(s.substr(b, i - b)); b = i + 1; }
  if (b < s.size()) r.push_back(s.substr(b) + "(unterminated)");
  return r;
}
static std::string Unesc(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; }
    const char x = s[++i];
    static const std::string from = "abtnvfr\\", to = "\a\b\t\n\v\f\r\\";
    const size_t q = from.find(x);
    if (q != std::string::npos) { r += to[q]; continue; }
    if (x == 'x') { int n = 0, v = 0; while (n < 2 && i + 1 < s.size() && isxdigit((unsigned char)s[i + 1])) { const char h = s[++i]; v = v * 16 + (isdigit((unsigned char)h) ? h - '0' : (tolower(h) - 'a' + 10)); n++; } r += (char)v; continue; }
    if (x >= '0' && x <= '7') { int v = x - '0', n = 1; while (n < 3 && i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '7') { v = v * 8 + s[++i] - '0'; n++; } r += (char)v; continue; }
    r += x;
  }
  return r;
}
static std::string Trim(const std::string& s, bool keep_tab) {
  std::string r = s;
  for (auto& x : r) { const unsigned char u = x; if ((u <= 32 || u == 127) && !(u == '\t' && keep_tab)) x = ' '; }
  return r;
}
static std::string Slurp(const std::string& p) { std::string s; ReadFile(p, &s); return s; }

static AnyOpt Opt(Rng& g, bool skip) {
  AnyOpt o; o.tiny_trees = g.P(50); o.small = g.P(40); o.always_file = true; o.padding = false; o.compress = true;
  if (skip) o.classes.push_back("SkipDBM");
  return o;
}
static void NoLzma(AnyDB* a) {
  for (auto* t : {&a->hp, (HashDBM::TuningParameters*)&a->tp}) { if (t->record_comp_mode == HashDBM::RECORD_COMP_LZMA) t->record_comp_mode = HashDBM::RECORD_COMP_LZ4; if (t->offset_width < 4) t->offset_width = 4; }
  if (a->cls != a->inner) { a->params.clear(); a->MakeParams(); }
}
static std::unique_ptr<File> OpenOut(Ctx& c, Rng& g, const std::string& path, bool fresh) {
  FileCfg fc = FileCfg::Make(g);
  if (fc.options & PositionalFile::ACCESS_PADDING) { fc.block = 0; fc.options = 0; }
  auto f = fc.New();
  Status s = f->Open(path, true, fresh ? File::OPEN_TRUNCATE : 0);
  VCHECK(c, s == Status::SUCCESS, "file-open", "%s %s", fc.Str().c_str(), SS(s).c_str());
  if (fresh && g.P(30)) { const std::string j = g.Bytes(g.Pick({1, 100, 5000})); f->Append(j.data(), j.size()); }  // removed by exporting
  return f;
}

static void RoundTrip(Ctx& c, Rng& g) {
  AnyDB a = AnyDB::Make(g, c.dir, Opt(g, true));
  NoLzma(&a);
  Describe(c, "round trip from " + a.desc);
  auto d = a.New();
  Status s = a.Open(d.get());
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  const int n = (int)g.Pick({0, 1, 5, 50, 300, 1000}), space = (int)g.Pick({10, 100, 1000});
  const int vmax = (int)g.Pick({0, 3, 30, 130, 5000, 40000});
  int64_t budget = 4 << 20;
  auto key = [&]() -> std::string { if (a.order->make) return a.order->make(g, space); const int x = (int)g.U(10); return x < 4 ? Fmt("%d", (int)g.U(space)) : x < 9 ? g.Bytes(g.Pick({0, 1, 2, 3, 10, 127, 128, 129, 300})) : std::string(g.U(4), "\t\n\\\x7f \x80\xff\x00"[g.U(8)]); };
  auto val = [&](int i) -> std::string {
    if (budget <= 0 || vmax == 0) return "";
    const int x = (int)g.U(10);
    std::string v;
    if (x < 6) v = g.Bytes(g.U(std::min(vmax, 200) + 1)); else if (x < 7) v = g.Bytes(g.U(vmax + 1)); else if (x < 8) { for (int j = 0; j < 20; j++) v += "\t\n\r\\ x0n\x7f\x80\xff\x00\x01"[g.U(13)]; } else v = Fmt("value-%d", i);
    budget -= v.size();
    return v;
  };
  for (int i = 0; i < n; i++) {
    if (!a.skip && g.P(15)) d->Remove(key());
    else { s = d->Set(key(), val(i)); VCHECK(c, s == Status::SUCCESS, "set", "%s", SS(s).c_str()); }
  }
  if (a.skip) { s = d->Synchronize(false); VCHECK(c, s == Status::SUCCESS, "sync", "%s", SS(s).c_str()); }
  if (g.P(20)) { a.Close(d.get()); s = a.Open(d.get(), false); VCHECK(c, s == Status::SUCCESS, "reopen", "%s", SS(s).c_str()); }
  const Recs src = List(d.get());
  const Recs sorted = Sorted(src);
  VCHECK(c, a.skip || (int64_t)src.size() == d->CountSimple(), "count", "%zu listed, %lld counted", src.size(), (long long)d->CountSimple());
  SMap want; for (auto& x : src) want[x.first] = x.second;
  int step = 0;
  auto import = [&](const char* what, const SMap& w, bool ignore_case_of_dup, const std::function<Status(DBM*)>& f) {
    (void)ignore_case_of_dup;
    AnyOpt o = Opt(g, true); o.orders = false;
    AnyDB b = AnyDB::Make(g, c.dir, o); NoLzma(&b);
    b.path = c.dir + Fmt("/dest%d.", step++) + b.path.substr(b.path.rfind('.') + 1);
    auto e = b.New();
    Status x = b.Open(e.get());
    VCHECK(c, x == Status::SUCCESS, "dest-open", "%s %s", b.desc.c_str(), SS(x).c_str());
    SMap expect;
    const bool pre = !b.skip && g.P(30);
    if (pre) { for (int i = 0; i < 10; i++) { const std::string k = !w.empty() && g.P(40) ? std::next(w.begin(), g.U(w.size()))->first : Fmt("pre%d", i); e->Set(k, "old"); expect[k] = "old"; } }
    x = f(e.get());
    VCHECK(c, x == Status::SUCCESS, "import", "%s into %s: %s", what, b.desc.c_str(), SS(x).c_str());
    if (b.skip) e->Synchronize(false);
    for (auto& q : w) expect[q.first] = q.second;
    for (int again = 0; again < 2; again++) {
      const Recs got = Sorted(List(e.get()));
      SMap m(got.begin(), got.end());
      if (b.skip && a.skip) { for (auto& q : got) m[q.first] = q.second; }
      if (!b.skip) {
        VCHECK(c, got.size() == m.size() && m == expect, "import-contents", "%s into %s%s: %zu records, wanted %zu", what, b.desc.c_str(), again ? " (reopened)" : "", got.size(), expect.size());
        VCHECK(c, e->CountSimple() == (int64_t)expect.size(), "import-count", "%s into %s: counts %lld, wanted %zu", what, b.desc.c_str(), (long long)e->CountSimple(), expect.size());
      } else {
        std::set<std::string> ks; for (auto& q : got) ks.insert(q.first);
        VCHECK(c, ks.size() == expect.size(), "import-keys", "%s into %s: %zu keys, wanted %zu", what, b.desc.c_str(), ks.size(), expect.size());
        for (auto& q : expect) { bool hit = false; for (auto it = std::lower_bound(got.begin(), got.end(), std::make_pair(q.first, std::string())); it != got.end() && it->first == q.first; ++it) if (it->second == q.second) hit = true; VCHECK(c, hit, "import-lost", "%s into %s: %s", what, b.desc.c_str(), Show(q.first).c_str()); }
      }
      if (!again) { x = b.Close(e.get()); if (x == Status::SUCCESS) x = b.Open(e.get(), g.P(50)); VCHECK(c, x == Status::SUCCESS, "dest-reopen", "%s", SS(x).c_str()); }
    }
    b.Close(e.get());
    c.Stat("imports");
    c.Stat("records imported", (int64_t)w.size());
    c.Eval(HashStr(b.desc) ^ HashStr(what) ^ c.sig);
  };
  c.Sig(c.desc); for (auto& x : sorted) { c.Sig(x.first); }
  const int tries = (int)g.R(1, 4);
  for (int t = 0; t < tries; t++) {
    const std::string fp = c.dir + "/out";
    switch (g.U(6)) {
      case 0: {
        auto f = OpenOut(c, g, fp, true);
        s = ExportDBMToFlatRecords(d.get(), f.get());
        VCHECK(c, s == Status::SUCCESS, "flat-export", "%s", SS(s).c_str());
        if (g.P(70)) { f->Close(); f = OpenOut(c, g, fp, false);
          std::vector<std::string> v; const std::string raw = Slurp(fp).substr(0, f->GetSizeSimple());
          VCHECK(c, ParseFlat(raw, &v) && v.size() == src.size() * 2, "flat-format", "%zu items for %zu records", v.size(), src.size());
          Recs r; for (size_t i = 0; i + 1 < v.size(); i += 2) r.emplace_back(v[i], v[i + 1]);
          VCHECK(c, Sorted(r) == sorted, "flat-records", "the file has other records (%zu)", r.size());
        }
        import("flat records", want, false, [&](DBM* e) { return ImportDBMFromFlatRecords(e, f.get()); });
        break;
      }
      case 1: {
        auto f = OpenOut(c, g, fp, true);
        s = ExportDBMKeysToFlatRecords(d.get(), f.get());
        VCHECK(c, s == Status::SUCCESS, "keys-export", "%s", SS(s).c_str());
        f->Close();
        std::vector<std::string> v, w; VCHECK(c, ParseFlat(Slurp(fp), &v), "keys-format", "%zu", v.size());
        for (auto& x : sorted) w.push_back(x.first);
        std::sort(v.begin(), v.end());
        VCHECK(c, v == w, "keys-records", "%zu keys, wanted %zu", v.size(), w.size());
        c.Stat("key exports");
        break;
      }
      case 2: {
        auto f = OpenOut(c, g, fp, true);
        s = ExportDBMToTSV(d.get(), f.get(), true);
        VCHECK(c, s == Status::SUCCESS, "tsv-export", "%s", SS(s).c_str());
        if (g.P(70)) {
          f->Close(); f = OpenOut(c, g, fp, false);
          Recs r; for (auto& l : Lines(Slurp(fp).substr(0, f->GetSizeSimple()))) { const size_t p = l.find('\t'); VCHECK(c, p != std::string::npos, "tsv-format", "%s", Show(l).c_str()); r.emplace_back(Unesc(l.substr(0, p)), Unesc(l.substr(p + 1))); }
          VCHECK(c, Sorted(r) == sorted, "tsv-records", "the file has other records (%zu, wanted %zu)", r.size(), sorted.size());
        }
        import("escaped TSV", want, false, [&](DBM* e) { return ImportDBMFromTSV(e, f.get(), true); });
        break;
      }
      case 3: {
        auto f = OpenOut(c, g, fp, true);
        s = ExportDBMToTSV(d.get(), f.get(), false);
        VCHECK(c, s == Status::SUCCESS, "tsv-export", "%s", SS(s).c_str());
        Recs r, w; SMap m;
        f->Close(); f = OpenOut(c, g, fp, false);
        for (auto& l : Lines(Slurp(fp).substr(0, f->GetSizeSimple()))) { const size_t p = l.find('\t'); VCHECK(c, p != std::string::npos, "tsv-format", "%s", Show(l).c_str()); r.emplace_back(l.substr(0, p), l.substr(p + 1)); m[l.substr(0, p)] = l.substr(p + 1); }
        for (auto& x : src) w.emplace_back(Trim(x.first, false), Trim(x.second, true));
        VCHECK(c, Sorted(r) == Sorted(w), "tsv-plain-records", "the file has other records (%zu, wanted %zu)", r.size(), w.size());
        import("plain TSV", m, false, [&](DBM* e) { return ImportDBMFromTSV(e, f.get(), false); });
        break;
      }
      case 4: {
        auto f = OpenOut(c, g, fp, true);
        s = ExportDBMKeysAsLines(d.get(), f.get());
        VCHECK(c, s == Status::SUCCESS, "lines-export", "%s", SS(s).c_str());
        f->Close();
        std::string w, got = Slurp(fp); int64_t z = 0; for (auto& x : src) z += x.first.size() + 1;
        VCHECK(c, (int64_t)got.size() == z, "lines-size", "%zu bytes, wanted %lld", got.size(), (long long)z);
        for (auto& x : src) VCHECK(c, got.find(x.first + "\n") != std::string::npos, "lines-key", "no line %s", Show(x.first).c_str());
        c.Stat("line exports");
        break;
      }
      default:
        import("a database", want, false, [&](DBM* e) { return d->Export(e); });
        break;
    }
  }
  VCHECK(c, Sorted(List(d.get())) == sorted, "source", "exporting changed the source");
  c.nontrivial = !src.empty();
}

// Writers with their own keys; the copy must be a prefix of the history of each, at one point of time.
static void LiveCopy(Ctx& c, Rng& g) {
  AnyOpt o = Opt(g, false); o.padding = false;
  AnyDB a = AnyDB::Make(g, c.dir, o);
#if __has_feature(thread_sanitizer)
  if (a.fc.kind == 4) a.fc.kind = 0;
#endif
  NoLzma(&a);
  const bool shard = a.cls == "ShardDBM";
  const int nw = (int)g.R(1, 4), m = (int)g.Pick({1, 3, 10, 60}), accounts = shard ? 0 : (int)g.Pick({0, 2, 10}), pre = (int)g.Pick({0, 100, 1000});
  const int pad = (int)g.Pick({0, 10, 100, 1000}), ncopy = (int)g.R(1, 3);
  Describe(c, Fmt("live copy writers=%d keys=%d accounts=%d pre=%d pad=%d copies=%d ", nw, m, accounts, pre, pad, ncopy) + a.desc);
  c.Sig(c.desc);
  std::string cmpname = a.order->name;
  if (a.order->make) { a.order = &KeyOrders()[0]; a.tp.key_comparator = a.order->comp; if (a.cls != a.inner) { a.params.clear(); a.MakeParams(); } }
  auto d = a.New();
  Status s = a.Open(d.get());
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  for (int i = 0; i < pre; i++) d->Set(Fmt("pre%05d", i), std::string(g.U(100), 'p'));
  for (int i = 0; i < accounts; i++) d->Set(Fmt("acct%d", i), "1000");
  struct H { std::string k, v; bool rm; std::vector<int64_t> dep; };
  const int cap = 20000;
  std::vector<std::vector<H>> hist(nw, std::vector<H>(cap + 1));
  std::vector<std::atomic<int64_t>> begun(nw), acked(nw);
  for (int i = 0; i < nw; i++) begun[i] = acked[i] = 0;
  std::atomic<bool> stop{false}; std::atomic<int> bad{0}; std::string badmsg; std::mutex bm;
  std::vector<std::thread> th;
  for (int w = 0; w < nw; w++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, w, seed] {
      Rng r(seed);
      for (int n = 1; n <= cap && !stop; n++) {
        H& h = hist[w][n];
        h.k = Fmt("w%d-%d", w, (int)r.U(m)); h.rm = r.P(20); h.v = Fmt("%d:", n) + std::string(r.U(pad + 1), 'v');
        for (int q = 0; q < nw; q++) h.dep.push_back(acked[q].load());
        begun[w] = n;
        Status x;
        if (h.rm) { x = d->Remove(h.k); if (x == Status::NOT_FOUND_ERROR) x = Status(Status::SUCCESS); }
        else x = d->Set(h.k, h.v);
        if (x != Status::SUCCESS) { std::lock_guard<std::mutex> l(bm); badmsg = SS(x); bad++; }
        acked[w] = n;
        if (accounts && r.P(40)) {
          const int p = (int)r.U(accounts), q = (p + 1 + (int)r.U(accounts - 1)) % accounts; const int amt = (int)r.U(20);
          std::string nv1, nv2;
          auto f1 = [&](std::string_view, std::string_view v) -> std::string_view { nv1 = std::to_string(StrToInt(v) - amt); return nv1; };
          auto f2 = [&](std::string_view, std::string_view v) -> std::string_view { nv2 = std::to_string(StrToInt(v) + amt); return nv2; };
          const std::string kp = Fmt("acct%d", p), kq = Fmt("acct%d", q);
          x = d->ProcessMulti(std::vector<std::pair<std::string_view, DBM::RecordLambdaType>>{{kp, f1}, {kq, f2}}, true);
          if (x != Status::SUCCESS) { std::lock_guard<std::mutex> l(bm); badmsg = SS(x); bad++; }
        }
        if (r.P(2)) std::this_thread::sleep_for(std::chrono::microseconds(r.U(300)));
      }
    });
  }
  struct Copy { std::string path; std::vector<int64_t> lo, hi; };
  std::vector<Copy> copies;
  const std::string ext = a.path.substr(a.path.rfind('.'));
  for (int i = 0; i < ncopy; i++) {
    std::this_thread::sleep_for(std::chrono::microseconds(g.Pick({100, 1000, 4000})));
    Copy cp; cp.path = c.dir + Fmt("/copy%d", i) + ext;
    for (int q = 0; q < nw; q++) cp.lo.push_back(acked[q].load());
    const int how = (int)g.U(3);
    const bool hard = g.P(10);
    if (how == 0 && !shard) {
      class FP : public DBM::FileProcessor { public: std::string to; Status st; int n = 0; void Process(const std::string& p) override { n++; st = CopyFileData(p, to); } } fp;
      fp.to = cp.path;
      s = d->Synchronize(hard, &fp);
      if (s == Status::SUCCESS) s = fp.st;
      if (fp.n != 1) { c.Record("copy-proc", Fmt("the processor was called %d times", fp.n)); }
    } else s = d->CopyFileData(cp.path, hard);
    for (int q = 0; q < nw; q++) cp.hi.push_back(begun[q].load());
    if (s != Status::SUCCESS) c.Record("copy", SS(s));
    copies.push_back(cp);
  }
  stop = true;
  for (auto& t : th) t.join();
  VCHECK(c, bad == 0, "writer", "%s", badmsg.c_str());
  int64_t inside = 0;
  for (size_t ci = 0; ci < copies.size(); ci++) {
    auto& cp = copies[ci];
    AnyDB b = a; b.path = cp.path;
    auto e = b.New();
    s = b.Open(e.get(), g.P(60), File::OPEN_NO_CREATE);
    VCHECK(c, s == Status::SUCCESS, "copy-open", "%s", SS(s).c_str());
    VCHECK(c, e->IsHealthy(), "copy-health", "the copy isn't healthy");
    auto* h = dynamic_cast<HashDBM*>(e.get()); auto* t = dynamic_cast<TreeDBM*>(e.get());
    if (h) VCHECK(c, !h->IsAutoRestored() && h->ValidateRecords(-1, -1) == Status::SUCCESS, "copy-valid", "restored %d", h->IsAutoRestored());
    if (t) VCHECK(c, !t->IsAutoRestored() && t->ValidateRecords(-1, -1) == Status::SUCCESS, "copy-valid", "restored %d", t->IsAutoRestored());
    const Recs got = List(e.get());
    SMap mm(got.begin(), got.end());
    VCHECK(c, mm.size() == got.size() && e->CountSimple() == (int64_t)mm.size(), "copy-count", "%zu listed, %zu distinct, counts %lld", got.size(), mm.size(), (long long)e->CountSimple());
    int np = 0; int64_t sum = 0; int na = 0;
    std::vector<SMap> own(nw);
    for (auto& x : mm) {
      if (x.first.compare(0, 3, "pre") == 0) np++;
      else if (x.first.compare(0, 4, "acct") == 0) { na++; sum += StrToInt(x.second); }
      else own[atoi(x.first.c_str() + 1)][x.first] = x.second;
    }
    VCHECK(c, np == pre && na == accounts, "copy-old", "%d of %d old records, %d accounts", np, pre, na);
    VCHECK(c, sum == 1000 * accounts, "copy-atomic", "the accounts of the copy sum up to %lld", (long long)sum);
    std::vector<int64_t> first(nw, -1), last(nw, -1);
    for (int w = 0; w < nw && !shard; w++) {
      SMap cur; 
      for (int64_t n = 0; n <= cp.hi[w]; n++) {
        if (n > 0) { const H& x = hist[w][n]; if (x.rm) cur.erase(x.k); else cur[x.k] = x.v; }
        if (n >= cp.lo[w] && cur == own[w]) { if (first[w] < 0) first[w] = n; last[w] = n; }
      }
      VCHECK(c, first[w] >= 0, "copy-prefix", "copy %zu: the records of writer %d aren't a state between its updates %lld (acknowledged before) and %lld (begun after)", ci, w, (long long)cp.lo[w], (long long)cp.hi[w]);
      if (first[w] > cp.lo[w]) inside++;
    }
    for (int w = 0; w < nw && !shard; w++) if (first[w] > 0) for (int q = 0; q < nw; q++) VCHECK(c, hist[w][first[w]].dep[q] <= last[q], "copy-point", "copy %zu has update %lld of writer %d but not the earlier update %lld of writer %d", ci, (long long)first[w], w, (long long)hist[w][first[w]].dep[q], q);
    if (shard) {  // every shard is copied at its own time
      for (int w = 0; w < nw; w++) {
        std::map<std::string, std::set<std::string>> ok; SMap cur;
        for (int64_t n = 0; n <= cp.hi[w]; n++) {
          if (n > 0) { const H& x = hist[w][n]; if (x.rm) cur.erase(x.k); else cur[x.k] = x.v; if (n > cp.lo[w]) ok[x.k].insert(x.rm ? "\x01gone" : x.v); }
          if (n == cp.lo[w]) for (int j = 0; j < m; j++) { const std::string k = Fmt("w%d-%d", w, j); ok[k].insert(cur.count(k) ? cur[k] : "\x01gone"); }
        }
        for (auto& x : ok) VCHECK(c, x.second.count(own[w].count(x.first) ? own[w][x.first] : "\x01gone"), "copy-key", "copy %zu: %s isn't a value it had during the copy", ci, x.first.c_str());
      }
    }
    b.Close(e.get());
    c.Stat("live copies");
    c.Stat("updates around copies", [&] { int64_t n = 0; for (int w = 0; w < nw; w++) n += cp.hi[w] - cp.lo[w]; return n; }());
  }
  c.Stat("writers caught in the middle of a copy", inside);
  int64_t total = 0; for (int w = 0; w < nw; w++) { total += acked[w]; c.Sig((uint64_t)acked[w]); }
  c.Stat("updates", total);
  c.nontrivial = total > 0;
}

static void Case(Ctx& c, Rng& g, int64_t) {
#if __has_feature(thread_sanitizer)
  LiveCopy(c, g);
#else
  if (g.P(60)) RoundTrip(c, g); else LiveCopy(c, g);
#endif
}
int main(int argc, char** argv) { return Main(argc, argv, "C25", Case); }
