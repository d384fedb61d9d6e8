// C12: a process death leaves a file tree database which opens healthy, in order, with values that were stored; with pages
// written at once and appending updates it costs nothing but the operation in flight.
#include "crash.h"
using namespace vh;

static std::string Str(const Status& s) { return std::string(s); }
typedef std::optional<std::string> Opt;

struct Point {
  Image im;
  std::vector<std::pair<std::string, std::string>> before;  // acknowledged
  std::vector<std::pair<std::string, std::vector<Opt>>> fly;
  bool clear = false, strict = false, synced_all = false;
  size_t hist = 0;
  std::string op, at;
};

struct Run {
  Ctx& c;
  Rng& g;
  FileCfg fc;
  TreeDBM::TuningParameters tp;
  const KeyOrder* order = nullptr;
  std::string dir, path, op;
  std::shared_ptr<CrashHub> hub = std::make_shared<CrashHub>();
  std::unique_ptr<TreeDBM> d;
  struct Less { const KeyOrder* o; bool operator()(const std::string& a, const std::string& b) const { return o->ref(a, b) < 0; } };
  typedef std::map<std::string, std::string, Less> Map;
  std::unique_ptr<Map> m;
  std::vector<std::pair<std::string, std::string>> hist;  // every (key, value) an operation tried to store
  std::vector<std::pair<std::string, std::vector<Opt>>> fly;
  bool clear = false, armed = false, clean = true;        // clean: nothing was updated since the last Synchronize
  bool quiet_op = false;
  std::vector<Point> points;
  int64_t pct = 10;
  size_t limit = 24;
  int nkeys = 20;
  Run(Ctx& c_, Rng& g_) : c(c_), g(g_) {}
  bool Strict() const { return tp.page_update_mode == TreeDBM::PAGE_UPDATE_WRITE && appending; }
  bool appending = false;
  void Hit(const std::string& where) {
    if (!armed || points.size() >= limit || !g.P(pct)) return;
    Point p;
    p.im = Image::Take(dir);
    p.before.assign(m->begin(), m->end()); p.fly = fly; p.clear = clear; p.op = op; p.at = where;
    p.strict = Strict() || clean;
    p.hist = hist.size();
    points.push_back(std::move(p));
  }
  std::string Key() { return order->numeric ? order->make(g, nkeys) : Fmt("k%d", (int)g.U(nkeys)); }
  std::string Val() { const int t = (int)g.U(10); return std::string(t < 6 ? g.U(12) : t < 9 ? g.U(120) : g.U(2500), (char)('a' + g.U(26))) + Fmt("%d", (int)hist.size()); }
  Opt Cur(const std::string& k) { auto it = m->find(k); return it == m->end() ? Opt() : Opt(it->second); }
  void Fly(const std::string& k, const Opt& v) {
    for (auto& f : fly) if (order->ref(f.first, k) == 0) { f.second.push_back(v); if (v) hist.push_back({k, *v}); return; }
    fly.push_back({k, {Cur(k), v}});
    if (v) hist.push_back({k, *v});
  }
  void Done() {
    for (auto& f : fly) { if (f.second.back()) { auto it = m->find(f.first); if (it == m->end()) m->emplace(f.first, *f.second.back()); else it->second = *f.second.back(); } else m->erase(f.first); }
    fly.clear();
  }
  void Ok(const Status& st) { VCHECK(c, st == Status::SUCCESS, "op", "%s: %s", op.c_str(), Str(st).c_str()); }
  void Open(bool fresh) {
    d = std::make_unique<TreeDBM>(std::make_unique<WrapFile>(hub, fc));
    auto p = tp;
    if (!fresh) p.update_mode = HashDBM::UPDATE_DEFAULT;
    Ok(d->OpenAdvanced(path, true, File::OPEN_DEFAULT, p));
    appending = tp.update_mode == HashDBM::UPDATE_APPENDING;
  }
  void Step() {
    const int k = (int)g.U(100);
    fly.clear();
    if (k < 40) {
      const std::string key = Key(), v = Val();
      op = "Set"; Fly(key, v); c.T(op + " " + key); clean = false; Ok(d->Set(key, v)); Done();
    } else if (k < 60) {
      const std::string key = Key();
      op = "Remove"; Fly(key, Opt()); c.T(op + " " + key); clean = false;
      const bool had = m->count(key);
      const Status st = d->Remove(key);
      VCHECK(c, (st == Status::SUCCESS) == had, "op", "Remove: %s", Str(st).c_str()); Done();
    } else if (k < 67) {
      const std::string key = Key(), v = Val();
      op = "Append"; const Opt o = Cur(key); Fly(key, o ? *o + "," + v : v); c.T(op + " " + key); clean = false; Ok(d->Append(key, v, ",")); Done();
    } else if (k < 72) {
      op = "ProcessMulti";
      std::vector<std::pair<std::string, Opt>> w;
      for (int i = (int)g.R(2, 4); i > 0; i--) {
        const std::string key = Key(); bool dup = false;
        for (auto& x : w) dup |= order->ref(x.first, key) == 0;
        if (!dup) w.push_back({key, g.P(70) ? Opt(Val()) : Opt()});
      }
      std::vector<std::pair<std::string_view, DBM::RecordLambdaType>> ops;
      for (auto& kv : w) {
        Fly(kv.first, kv.second);
        const Opt* v = &kv.second;
        ops.push_back({kv.first, [v](std::string_view, std::string_view) -> std::string_view { return *v ? std::string_view(**v) : DBM::RecordProcessor::REMOVE; }});
      }
      c.T(op); clean = false;
      Ok(static_cast<DBM*>(d.get())->ProcessMulti(ops, true)); Done();
    } else if (k < 75) {
      if (m->empty()) return;
      op = "PopFirst"; c.T(op); Fly(m->begin()->first, Opt()); clean = false;
      std::string key, v; Ok(d->PopFirst(&key, &v)); Done();
    } else if (k < 78) {
      op = "iterator update"; c.T(op);
      auto it = d->MakeIterator();
      std::string key;
      if (it->Jump(Key()) != Status::SUCCESS || it->Get(&key) != Status::SUCCESS) return;
      clean = false;
      if (g.P(50)) { const std::string v = Val(); Fly(key, v); Ok(it->Set(v)); } else { Fly(key, Opt()); Ok(it->Remove()); }
      Done();
    } else if (k < 83) {
      op = "scan"; c.T(op);
      auto it = d->MakeIterator();
      std::string key;
      for (Status st = it->First(); st == Status::SUCCESS && it->Get(&key) == Status::SUCCESS; it->Next()) {}
    } else if (k < 84) {
      op = "Clear"; c.T(op); clear = true; clean = false; Ok(d->Clear()); clear = false; m->clear();
    } else if (k < 87) {
      op = "Rebuild"; c.T(op);
      TreeDBM::TuningParameters t;
      if (g.P(40)) t.max_page_size = (int)g.Pick({1, 40, 200, 1000});
      if (g.P(30)) t.max_branches = (int)g.Pick({2, 3, 16});
      Ok(d->RebuildAdvanced(t));
      clean = false;
      appending = tp.update_mode == HashDBM::UPDATE_APPENDING;
    } else if (k < 94) {
      op = "Synchronize"; c.T(op); Ok(d->Synchronize(g.P(40))); clean = true;
    } else if (k < 96) {
      op = "Close"; c.T(op); Ok(d->Close()); op = "Open"; Open(false); clean = true;
    } else {
      const std::string key = Key(); const Opt o = Cur(key);
      std::string v;
      VCHECK(c, (d->Get(key, &v) == Status::SUCCESS) == o.has_value() && (!o || v == *o), "op", "Get");
    }
  }
};

static std::vector<std::pair<std::string, std::string>> Scan(Run& r, TreeDBM* d, const std::string& at, const char* when) {
  Ctx& c = r.c;
  std::vector<std::pair<std::string, std::string>> s;
  auto it = d->MakeIterator();
  std::string k, v;
  Status st = it->First();
  while (st == Status::SUCCESS && (st = it->Get(&k, &v)) == Status::SUCCESS) {
    if (!s.empty()) VCHECK(c, r.order->ref(s.back().first, k) < 0, "order", "%s: %s then %s (%s)", when, Show(std::string_view(s.back().first)).c_str(), Show(std::string_view(k)).c_str(), at.c_str());
    s.push_back({k, v});
    st = it->Next();
  }
  VCHECK(c, st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR, "scan", "%s: scan: %s (%s)", when, Str(st).c_str(), at.c_str());
  return s;
}

static bool ClearFinding(Ctx& c, const Point& p, const std::string& msg) {
  static bool once = false;
  if (!once) c.Record("reopen-after-clear", msg);
  once = true;
  c.Stat("damaged_by_clear");
  return true;
}

static void Check(Run& r, const Point& p, TreeDBM* d, std::vector<std::pair<std::string, std::string>>* out) {
  Ctx& c = r.c;
  const std::string at = p.op + " killed at " + p.at + (p.strict ? " (strict)" : "");
  VCHECK(c, d->IsHealthy(), "unhealthy", "not healthy after the restoration: %s", at.c_str());
  auto s = Scan(r, d, at, "restored");
  int64_t cnt = -1;
  VCHECK(c, d->Count(&cnt) == Status::SUCCESS && cnt == (int64_t)s.size(), "count", "Count %lld, %zu records in the scan: %s", (long long)cnt, s.size(), at.c_str());
  auto get = [&](const std::string& k) -> Opt { for (auto& kv : s) if (r.order->ref(kv.first, k) == 0) return kv.second; return Opt(); };
  if (p.strict && !p.clear) {
    for (auto& kv : p.before) {
      bool flying = false;
      for (auto& f : p.fly) flying |= r.order->ref(f.first, kv.first) == 0;
      if (flying) continue;
      const Opt o = get(kv.first);
      VCHECK(c, o, "lost-record", "%s is lost: %s", Show(std::string_view(kv.first)).c_str(), at.c_str());
      VCHECK(c, *o == kv.second, "wrong-record", "%s holds %s instead of %s: %s", Show(std::string_view(kv.first)).c_str(), Show(std::string_view(*o)).c_str(), Show(std::string_view(kv.second)).c_str(), at.c_str());
    }
    for (auto& f : p.fly) {
      const Opt o = get(f.first);
      bool ok = false;
      for (auto& v : f.second) ok |= o == v;
      VCHECK(c, ok, "flight-record", "%s, in flight, holds a third value: %s", Show(std::string_view(f.first)).c_str(), at.c_str());
    }
    for (auto& kv : s) {
      bool known = false;
      for (auto& b : p.before) known |= r.order->ref(b.first, kv.first) == 0;
      for (auto& f : p.fly) known |= r.order->ref(f.first, kv.first) == 0;
      VCHECK(c, known, "resurrected", "%s reappeared: %s", Show(std::string_view(kv.first)).c_str(), at.c_str());
    }
    c.Stat("strict_points");
  }
  for (auto& kv : s) {
    bool ok = false;
    for (size_t i = 0; i < p.hist && !ok; i++) ok = r.hist[i].second == kv.second && r.order->ref(r.hist[i].first, kv.first) == 0;
    VCHECK(c, ok, "never-stored", "%s holds %s, which was never stored: %s", Show(std::string_view(kv.first)).c_str(), Show(std::string_view(kv.second)).c_str(), at.c_str());
    std::string v;
    VCHECK(c, d->Get(kv.first, &v) == Status::SUCCESS && v == kv.second, "get-after", "Get(%s) differs from the scan: %s", Show(std::string_view(kv.first)).c_str(), at.c_str());
  }
  c.Stat("records_restored", s.size());
  *out = s;
}

static void Case(Ctx& c, Rng& g, int64_t) {
  Run r(c, g);
  r.fc = FileCfg::Make(g, true);
  if (r.fc.alloc_init <= 0) { r.fc.alloc_init = g.Pick<int64_t>({4096, 1 << 16}); r.fc.alloc_inc = g.Pick({1.1, 2.0}); }
  r.fc.options &= ~(PositionalFile::ACCESS_PAGECACHE);
  RandTreeParams(g, &r.tp, &r.order);
  if (g.P(40)) { r.tp.page_update_mode = TreeDBM::PAGE_UPDATE_WRITE; r.tp.update_mode = HashDBM::UPDATE_APPENDING; }
  if (g.P(60)) r.tp.max_page_size = (int)g.Pick({40, 100, 200});
  if (r.tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) r.tp.record_comp_mode = HashDBM::RECORD_COMP_NONE;
  if (r.tp.offset_width < 4) r.tp.offset_width = 4;
  r.m = std::make_unique<Run::Map>(Run::Less{r.order});
  r.nkeys = (int)g.Pick({4, 20, 60, 200});
  r.dir = c.Path("db");
  mkdir(r.dir.c_str(), 0755);
  r.path = r.dir + "/casket.tkt";
  const int nops = (int)g.R(10, 120);
  r.pct = g.Pick({2, 6, 15});
  r.limit = c.thorough ? 50 : 16;
  Describe(c, Fmt("%s %s keys=%d ops=%d", r.fc.Str().c_str(), TreeParamsStr(r.tp, r.order).c_str(), r.nkeys, nops));
  const int pre = (int)g.U(nops);
  r.hub->at = [&](const std::string& w) { r.Hit(w); };
  r.hub->HookSys(true);
  struct Off { Run& r; ~Off() { r.hub->HookSys(false); } } off{r};
  r.op = "Open";
  r.Open(true);
  for (int i = 0; i < nops; i++) { r.armed = i >= pre; r.Step(); }
  r.op = "Close"; r.armed = true; r.fly.clear();
  r.Ok(r.d->Close());
  r.armed = false;
  r.hub->HookSys(false);
  const std::string cdir = c.Path("crash"), cpath = cdir + "/casket.tkt";
  for (auto& p : r.points) {
    p.im.Put(cdir);
    const std::string at = p.op + " killed at " + p.at;
    c.T("restore after " + at);
    c.Stat("crash_points"); c.Eval(p.im.Hash());
    c.Reach("crash in " + p.op + " at " + p.at.substr(0, p.at.find('(')) + (p.strict ? " strict" : ""));
    std::vector<Image> nested;
    auto hub2 = std::make_shared<CrashHub>();
    if (g.P(30)) { hub2->at = [&](const std::string& w) { if (nested.size() < 3 && g.P(w.compare(0, 6, "rename") == 0 ? 90 : 20)) nested.push_back(Image::Take(cdir)); }; hub2->HookSys(true); }
    struct Off2 { CrashHub& h; ~Off2() { h.HookSys(false); } } off2{*hub2};
    TreeDBM::TuningParameters t;
    t.cipher_key = r.tp.cipher_key;
    t.key_comparator = r.tp.key_comparator;
    if (g.P(60)) { t.page_update_mode = r.tp.page_update_mode; t.max_cached_pages = r.tp.max_cached_pages; }
    if (g.P(15)) t.restore_mode = HashDBM::RESTORE_DEFAULT | HashDBM::RESTORE_NO_SHORTCUTS;
    std::vector<std::pair<std::string, std::string>> s;
    {
      TreeDBM d(std::make_unique<WrapFile>(hub2, r.fc));
      const Status st = d.OpenAdvanced(cpath, true, File::OPEN_DEFAULT, t);
      hub2->HookSys(false); hub2->at = nullptr;
      if (p.clear) {  // known: a death within Clear; reported once
        std::string k, v; int64_t n = 0;
        bool ok = st == Status::SUCCESS && d.IsHealthy();
        auto it = d.MakeIterator();
        Status st2 = ok ? it->First() : st;
        while (st2 == Status::SUCCESS && (st2 = it->Get(&k, &v)) == Status::SUCCESS) { n++; st2 = it->Next(); }
        if (!ok || st2 != Status::NOT_FOUND_ERROR || d.CountSimple() != n) {
          ClearFinding(c, p, Fmt("reopening after %s: %s, scan %s", at.c_str(), Str(st).c_str(), Str(st2).c_str()));
        }
        it.reset();
        continue;
      }
      VCHECK(c, st == Status::SUCCESS, "reopen", "reopening after %s: %s", at.c_str(), Str(st).c_str());
      c.Stat(d.IsAutoRestored() ? "auto_restored" : "not_restored");
      Check(r, p, &d, &s);
      const std::string nk = r.Key();
      VCHECK(c, d.Set(nk, "v") == Status::SUCCESS, "use-after", "updates fail after %s", at.c_str());
      bool found = false;
      for (auto& kv : s) if (r.order->ref(kv.first, nk) == 0) { kv.second = "v"; found = true; }
      if (!found) { s.push_back({nk, "v"}); std::sort(s.begin(), s.end(), [&](auto& a, auto& b) { return r.order->ref(a.first, b.first) < 0; }); }
      if (s.size() > 2 && g.P(50)) { const size_t i = g.U(s.size()); VCHECK(c, d.Remove(s[i].first) == Status::SUCCESS, "use-after", "Remove fails after %s", at.c_str()); s.erase(s.begin() + i); }
      VCHECK(c, Scan(r, &d, at, "used") == s, "use-after", "contents differ after updates of the restored database: %s", at.c_str());
      if (g.P(20)) VCHECK(c, d.Rebuild() == Status::SUCCESS, "use-after", "Rebuild fails after %s", at.c_str());
      VCHECK(c, d.Close() == Status::SUCCESS, "use-after", "Close fails after %s", at.c_str());
      TreeDBM d2(r.fc.New());
      TreeDBM::TuningParameters t2;
      t2.cipher_key = r.tp.cipher_key; t2.key_comparator = r.tp.key_comparator;
      VCHECK(c, d2.OpenAdvanced(cpath, false, File::OPEN_DEFAULT, t2) == Status::SUCCESS && d2.IsHealthy() && Scan(r, &d2, at, "reopened") == s, "use-after", "contents differ after closing the restored database: %s", at.c_str());
      d2.Close();
    }
    for (auto& im : nested) {
      im.Put(cdir);
      c.Stat("nested_crash_points"); c.Eval(im.Hash());
      TreeDBM d(r.fc.New());
      TreeDBM::TuningParameters t2;
      t2.cipher_key = r.tp.cipher_key; t2.key_comparator = r.tp.key_comparator;
      const Status st = d.OpenAdvanced(cpath, true, File::OPEN_DEFAULT, t2);
      if (p.clear) continue;
      VCHECK(c, st == Status::SUCCESS, "reopen-nested", "reopening after a restoration was killed too (%s): %s", at.c_str(), Str(st).c_str());
      c.T("nested");
      Check(r, p, &d, &s);
      d.Close();
    }
    c.Sig(s.size() * 31 + p.im.Hash());
  }
  if (!r.points.empty()) c.nontrivial = true;
}
int main(int argc, char** argv) { return vh::Main(argc, argv, "C12", Case); }
