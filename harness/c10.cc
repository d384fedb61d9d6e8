// C10: a process death never costs a file hash database more than the record in flight.
#include "crash.h"
using namespace vh;

typedef std::map<std::string, std::string> Map;
typedef std::optional<std::string> Opt;

struct Point {
  Image im;
  Map before;                                  // what had been acknowledged
  std::map<std::string, std::vector<Opt>> fly; // keys of the operation in flight and the values they may have
  bool clear = false;                          // Clear was in flight
  std::string op, at;
  bool in_place = true;
};

static std::string Str(const Status& s) { return std::string(s); }
static std::string ShowO(const Opt& o) { return o ? Show(std::string_view(*o)) : std::string("(absent)"); }

struct Run {
  Ctx& c;
  Rng& g;
  FileCfg fc;
  HashDBM::TuningParameters hp;
  std::string dir, path;
  std::shared_ptr<CrashHub> hub = std::make_shared<CrashHub>();
  std::unique_ptr<HashDBM> d;
  Map m;
  std::map<std::string, std::vector<Opt>> fly;
  bool clear = false, armed = false, in_place = true, mixed = false;
  std::string op;
  std::vector<Point> points;
  int64_t pct = 10;
  size_t limit = 24;

  Run(Ctx& c_, Rng& g_) : c(c_), g(g_) {}
  void Hit(const std::string& where) {
    if (!armed || points.size() >= limit || !g.P(pct)) return;
    Point p;
    p.im = Image::Take(dir);
    p.before = m; p.fly = fly; p.clear = clear; p.op = op; p.at = where; p.in_place = in_place || mixed;
    points.push_back(std::move(p));
  }
  std::string Key() { return Fmt("k%d", (int)g.U(nkeys)); }
  int nkeys = 20;
  std::string Val() {
    const int t = (int)g.U(10);
    return std::string(t < 6 ? g.U(12) : t < 9 ? g.U(120) : g.U(2500), (char)('a' + g.U(26)));
  }
  Opt Cur(const std::string& k) { auto it = m.find(k); return it == m.end() ? Opt() : Opt(it->second); }
  void Fly(const std::string& k, const Opt& v) { fly[k] = {Cur(k), v}; }
  void Done() {
    for (auto& kv : fly) { if (kv.second.back()) m[kv.first] = *kv.second.back(); else m.erase(kv.first); }
    fly.clear();
  }
  void Ok(const Status& st) { VCHECK(c, st == Status::SUCCESS, "op", "%s: %s", op.c_str(), Str(st).c_str()); }
  void Open(bool fresh) {
    d = std::make_unique<HashDBM>(std::make_unique<WrapFile>(hub, fc));
    HashDBM::TuningParameters p = hp;
    if (!fresh) p.update_mode = HashDBM::UPDATE_DEFAULT;
    Ok(d->OpenAdvanced(path, true, File::OPEN_DEFAULT, p));
    in_place = d->GetUpdateMode() == HashDBM::UPDATE_IN_PLACE;
  }
  void Step() {
    const int k = (int)g.U(100);
    fly.clear();
    if (k < 30) {
      const std::string key = Key(), v = Val();
      op = "Set(" + key + "," + Fmt("%zu", v.size()) + ")"; Fly(key, v); c.T(op); Ok(d->Set(key, v)); Done();
    } else if (k < 45) {
      const std::string key = Key();
      op = "Remove(" + key + ")"; Fly(key, Opt()); c.T(op);
      const bool had = m.count(key);
      const Status st = d->Remove(key);
      VCHECK(c, (st == Status::SUCCESS) == had, "op", "%s: %s, present %d", op.c_str(), Str(st).c_str(), had); Done();
    } else if (k < 52) {
      const std::string key = Key(), v = Val();
      op = "Append(" + key + ")"; c.T(op); const Opt o = Cur(key); Fly(key, o ? *o + "," + v : v); Ok(d->Append(key, v, ",")); Done();
    } else if (k < 56) {
      const std::string key = Key(), v = Val(); const Opt o = Cur(key);
      op = "Set(" + key + ",no overwrite)"; Fly(key, o ? o : Opt(v)); c.T(op);
      const Status st = d->Set(key, v, false);
      VCHECK(c, (st == Status::SUCCESS) != o.has_value(), "op", "%s: %s", op.c_str(), Str(st).c_str()); Done();
    } else if (k < 60) {
      const std::string key = Key(), v = Val(); const Opt o = Cur(key);
      op = "CompareExchange(" + key + ")"; c.T(op);
      const bool rm = g.P(30);
      Fly(key, rm ? Opt() : Opt(v));
      Ok(d->CompareExchange(key, o ? std::string_view(*o) : std::string_view(), rm ? std::string_view() : std::string_view(v))); Done();
    } else if (k < 63) {
      const std::string a = Key(), b = Key();
      if (a == b || !m.count(a)) return;
      op = "Rekey(" + a + "," + b + ")"; c.T(op); Fly(b, m[a]); Fly(a, Opt()); Ok(d->Rekey(a, b)); Done();
    } else if (k < 69) {
      // several records in one transaction
      std::map<std::string, Opt> w;
      const int n = (int)g.R(2, 4);
      for (int i = 0; i < n; i++) w[Key()] = g.P(75) ? Opt(Val()) : Opt();
      op = "SetMulti/ProcessMulti("; for (auto& kv : w) op += kv.first + (kv.second ? "=" : "-") + " "; op += ")"; c.T(op);
      std::vector<std::pair<std::string_view, DBM::RecordLambdaType>> ops;
      for (auto& kv : w) {
        Fly(kv.first, kv.second);
        const Opt* v = &kv.second;
        ops.push_back({kv.first, [v](std::string_view, std::string_view) -> std::string_view { return *v ? std::string_view(**v) : DBM::RecordProcessor::REMOVE; }});
      }
      Ok(static_cast<DBM*>(d.get())->ProcessMulti(ops, true)); Done();
    } else if (k < 72) {
      // every record in one pass
      const std::string suf = g.P(50) ? "!" : "";
      const int rm = (int)g.U(40);
      op = "ProcessEach"; c.T(op);
      for (auto& kv : m) { const bool r = (int)(HashStr(kv.first) % 100) < rm; fly[kv.first] = {Opt(kv.second), r ? Opt() : suf.empty() ? Opt(kv.second) : Opt(kv.second + suf)}; }
      std::string buf;
      Ok(static_cast<DBM*>(d.get())->ProcessEach([&](std::string_view key, std::string_view v) -> std::string_view {
        if (key.data() == DBM::RecordProcessor::NOOP.data()) return DBM::RecordProcessor::NOOP;
        if ((int)(HashStr(key) % 100) < rm) return DBM::RecordProcessor::REMOVE;
        if (suf.empty()) return DBM::RecordProcessor::NOOP;
        buf = std::string(v) + suf;
        return buf;
      }, true));
      Done();
    } else if (k < 76) {
      op = "iterator update"; c.T(op);
      auto it = d->MakeIterator();
      if (it->First() != Status::SUCCESS) return;
      std::string key;
      for (int i = (int)g.U(5); i > 0; i--) it->Next();
      if (it->Get(&key) != Status::SUCCESS) return;
      if (g.P(50)) { const std::string v = Val(); op += " Set(" + key + ")"; Fly(key, v); Ok(it->Set(v)); }
      else { op += " Remove(" + key + ")"; Fly(key, Opt()); Ok(it->Remove()); }
      Done();
    } else if (k < 80) {
      if (m.empty()) return;
      op = "PopFirst"; c.T(op);
      std::string key, v;
      for (auto& kv : m) fly[kv.first] = {Opt(kv.second), Opt()};
      Ok(d->PopFirst(&key, &v));
      VCHECK(c, m.count(key) && m[key] == v, "op", "PopFirst returned %s = %s", key.c_str(), Show(v).c_str());
      fly.clear(); m.erase(key);
    } else if (k < 82) {
      op = "Clear"; c.T(op); clear = true; Ok(d->Clear()); clear = false; m.clear();
    } else if (k < 86) {
      op = "Rebuild"; c.T(op);
      HashDBM::TuningParameters t;
      if (g.P(60)) t.num_buckets = g.Pick<int64_t>({1, 5, 50, 300});
      if (g.P(30)) t.align_pow = (int)g.U(6);
      if (g.P(30)) t.record_crc_mode = (HashDBM::RecordCRCMode)g.R(1, 4);
      if (g.P(40)) t.update_mode = g.P(50) ? HashDBM::UPDATE_IN_PLACE : HashDBM::UPDATE_APPENDING;
      Ok(d->RebuildAdvanced(t, false, g.P(30)));
      in_place = d->GetUpdateMode() == HashDBM::UPDATE_IN_PLACE;
    } else if (k < 92) {
      op = "Synchronize"; c.T(op); Ok(d->Synchronize(g.P(50)));
    } else if (k < 95) {
      op = "Close"; c.T(op); Ok(d->Close()); op = "Open"; Open(false);
    } else {
      const std::string key = Key(); const Opt o = Cur(key);
      std::string v;
      const Status st = d->Get(key, &v);
      VCHECK(c, (st == Status::SUCCESS) == o.has_value() && (!o || v == *o), "op", "Get(%s): %s %s, expected %s", key.c_str(), Str(st).c_str(), Show(v).c_str(), ShowO(o).c_str());
    }
  }
};

static Map Scan(Ctx& c, HashDBM* d, const Point& p, const char* when) {
  Map r;
  const Status st = static_cast<DBM*>(d)->ProcessEach([&](std::string_view k, std::string_view v) -> std::string_view {
    if (k.data() == DBM::RecordProcessor::NOOP.data()) return DBM::RecordProcessor::NOOP;
    if (!k.empty()) {
      if (r.count(std::string(k))) c.Fail("duplicate", Fmt("%s: key %s appears twice (%s at %s)", when, std::string(k).c_str(), p.op.c_str(), p.at.c_str()));
      r[std::string(k)] = std::string(v);
    }
    return DBM::RecordProcessor::NOOP;
  }, false);
  VCHECK(c, st == Status::SUCCESS, "scan", "%s: scan: %s (%s at %s)", when, Str(st).c_str(), p.op.c_str(), p.at.c_str());
  return r;
}

static void Check(Ctx& c, Run& r, const Point& p, const std::string& path, HashDBM* d, Map* out) {
  const std::string at = p.op + " killed at " + p.at + (p.in_place ? " (in place)" : " (appending)");
  VCHECK(c, d->IsHealthy(), "unhealthy", "not healthy after the restoration: %s", at.c_str());
  Map s = Scan(c, d, p, "restored");
  int64_t cnt = -1;
  VCHECK(c, d->Count(&cnt) == Status::SUCCESS && cnt == (int64_t)s.size(), "count", "Count %lld, %zu records in the scan: %s", (long long)cnt, s.size(), at.c_str());
  if (!p.clear) VCHECK(c, d->GetDatabaseType() == 1234 && d->GetOpaqueMetadata().substr(0, 12) == std::string("opaque data", 12), "metadata", "type %u, opaque %s: %s", d->GetDatabaseType(), Show(std::string_view(d->GetOpaqueMetadata())).c_str(), at.c_str());
  auto get = [&](const std::string& k) { auto it = s.find(k); return it == s.end() ? Opt() : Opt(it->second); };
  if (p.clear) {
    // nothing or everything
    if (!s.empty()) VCHECK(c, s == p.before, "lost-record", "%zu of %zu records left by an interrupted Clear: %s", s.size(), p.before.size(), at.c_str());
  } else {
    for (auto& kv : p.before) {
      if (p.fly.count(kv.first)) continue;
      const Opt o = get(kv.first);
      VCHECK(c, o, "lost-record", "%s is lost: %s", kv.first.c_str(), at.c_str());
      VCHECK(c, *o == kv.second, "wrong-record", "%s holds %s instead of %s: %s", kv.first.c_str(), ShowO(o).c_str(), Show(kv.second).c_str(), at.c_str());
    }
    for (auto& kv : p.fly) {
      const Opt o = get(kv.first);
      bool ok = false;
      for (auto& v : kv.second) ok |= o == v;
      if (p.in_place && !o) ok = true;
      VCHECK(c, ok, "flight-record", "%s, in flight, holds %s instead of %s or %s: %s", kv.first.c_str(), ShowO(o).c_str(), ShowO(kv.second[0]).c_str(), ShowO(kv.second.back()).c_str(), at.c_str());
    }
    for (auto& kv : s) VCHECK(c, p.before.count(kv.first) || p.fly.count(kv.first), "extra-record", "%s appeared: %s", kv.first.c_str(), at.c_str());
  }
  for (auto& kv : s) {
    std::string v;
    VCHECK(c, d->Get(kv.first, &v) == Status::SUCCESS && v == kv.second, "get-after", "Get(%s) differs from the scan: %s", kv.first.c_str(), at.c_str());
  }
  *out = s;
}

static void Case(Ctx& c, Rng& g, int64_t) {
  Run r(c, g);
  r.fc = FileCfg::Make(g, true);
  if (r.fc.alloc_init <= 0) { r.fc.alloc_init = g.Pick<int64_t>({4096, 1 << 16}); r.fc.alloc_inc = g.Pick({1.1, 2.0}); }
  if (r.fc.options & PositionalFile::ACCESS_PAGECACHE) r.fc.options &= ~PositionalFile::ACCESS_PAGECACHE;  // keeps writes in the process
  RandHashParams(g, &r.hp);
  if (r.hp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) r.hp.record_comp_mode = HashDBM::RECORD_COMP_NONE;
  if (r.hp.offset_width < 4) r.hp.offset_width = 4;
  r.nkeys = (int)g.Pick({4, 20, 60});
  r.dir = c.Path("db");
  mkdir(r.dir.c_str(), 0755);
  r.path = r.dir + "/casket.tkh";
  const int nops = (int)g.R(10, 80);
  r.pct = g.Pick({3, 8, 20});
  r.limit = c.thorough ? 60 : 20;
  Describe(c, Fmt("%s %s keys=%d ops=%d", r.fc.Str().c_str(), HashParamsStr(r.hp).c_str(), r.nkeys, nops));
  // part of the history before crashes are looked for
  const int pre = (int)g.U(nops);
  r.hub->at = [&](const std::string& w) { r.Hit(w); };
  r.hub->HookSys(true);
  struct Off { Run& r; ~Off() { r.hub->HookSys(false); } } off{r};
  r.op = "Open";
  r.Open(true);
  r.d->SetDatabaseType(1234); r.d->SetOpaqueMetadata("opaque data"); r.d->Synchronize(false);
  for (int i = 0; i < nops; i++) { r.armed = i >= pre; r.Step(); }
  r.op = "Close"; r.armed = true;
  r.fly.clear();
  r.Ok(r.d->Close());
  r.armed = false;
  r.hub->HookSys(false);
  // every image is reopened and judged
  const std::string cdir = c.Path("crash"), cpath = cdir + "/casket.tkh";
  for (auto& p : r.points) {
    p.im.Put(cdir);
    c.T("restore after " + p.op + " at " + p.at);
    c.Stat("crash_points"); c.Eval(p.im.Hash());
    c.Reach("crash in " + p.op.substr(0, p.op.find('(')) + " at " + p.at.substr(0, p.at.find('(')) + (p.in_place ? " in-place" : " appending"));
    FileCfg fc = g.P(60) ? r.fc : FileCfg::Make(g, false);
    fc.options &= ~PositionalFile::ACCESS_PAGECACHE;
    if ((r.fc.options & PositionalFile::ACCESS_PADDING) || (fc.options & PositionalFile::ACCESS_PADDING)) fc = r.fc;
    // one of the reopenings is killed as well
    std::vector<Image> nested;
    auto hub2 = std::make_shared<CrashHub>();
    const bool nest = g.P(30);
    if (nest) { hub2->at = [&](const std::string& w) { if (nested.size() < 3 && g.P(w.compare(0, 6, "rename") == 0 ? 90 : 30)) nested.push_back(Image::Take(cdir)); }; hub2->HookSys(true); }
    HashDBM::TuningParameters t;
    t.cipher_key = r.hp.cipher_key;
    if (g.P(30)) t.min_read_size = r.hp.min_read_size;
    if (g.P(15)) t.restore_mode = HashDBM::RESTORE_DEFAULT | HashDBM::RESTORE_NO_SHORTCUTS;
    if (g.P(10)) t.restore_mode |= HashDBM::RESTORE_WITH_HARDSYNC;
    Map s;
    {
      HashDBM d(std::make_unique<WrapFile>(hub2, fc));
      const Status st = d.OpenAdvanced(cpath, true, File::OPEN_DEFAULT, t);
      hub2->HookSys(false); hub2->at = nullptr;
      if (p.clear && st == Status::BROKEN_DATA_ERROR && st.GetMessage() == "bad magic data") {  // known: reported once
        static bool once = false;
        if (!once) c.Record("reopen-after-clear", Fmt("reopening after %s killed at %s: %s", p.op.c_str(), p.at.c_str(), Str(st).c_str()));
        once = true;
        c.Stat("unopenable_after_clear");
        continue;
      }
      VCHECK(c, st == Status::SUCCESS, "reopen", "reopening after %s killed at %s: %s", p.op.c_str(), p.at.c_str(), Str(st).c_str());
      c.Stat(d.IsAutoRestored() ? "auto_restored" : "not_restored");
      Check(c, r, p, cpath, &d, &s);
      // it is usable
      const std::string nk = Fmt("new%d", (int)g.U(3)), ok = s.empty() ? nk : s.begin()->first;
      VCHECK(c, d.Set(nk, "v") == Status::SUCCESS && d.Set(ok, "w") == Status::SUCCESS, "use-after", "updates fail after %s killed at %s", p.op.c_str(), p.at.c_str());
      s[nk] = "v"; s[ok] = "w";
      if (g.P(20)) { VCHECK(c, d.Rebuild() == Status::SUCCESS, "use-after", "Rebuild fails after %s killed at %s", p.op.c_str(), p.at.c_str()); }
      if (s.size() > 2 && g.P(50)) { auto it = std::next(s.begin()); VCHECK(c, d.Remove(it->first) == Status::SUCCESS, "use-after", "Remove fails"); s.erase(it); }
      VCHECK(c, Scan(c, &d, p, "used") == s, "use-after", "contents differ after updates of the restored database (%s killed at %s)", p.op.c_str(), p.at.c_str());
      VCHECK(c, d.Close() == Status::SUCCESS, "use-after", "Close fails after %s killed at %s", p.op.c_str(), p.at.c_str());
      HashDBM d2(fc.New());
      HashDBM::TuningParameters t2;
      t2.cipher_key = r.hp.cipher_key;
      VCHECK(c, d2.OpenAdvanced(cpath, false, File::OPEN_DEFAULT, t2) == Status::SUCCESS && d2.IsHealthy() && Scan(c, &d2, p, "reopened") == s, "use-after", "contents differ after closing the restored database (%s killed at %s)", p.op.c_str(), p.at.c_str());
      d2.Close();
    }
    for (auto& im : nested) {
      im.Put(cdir);
      c.Stat("nested_crash_points"); c.Eval(im.Hash());
      HashDBM d(r.fc.New());
      HashDBM::TuningParameters t2;
      t2.cipher_key = r.hp.cipher_key;
      const Status st = d.OpenAdvanced(cpath, true, File::OPEN_DEFAULT, t2);
      if (p.clear && st == Status::BROKEN_DATA_ERROR && st.GetMessage() == "bad magic data") continue;
      VCHECK(c, st == Status::SUCCESS, "reopen-nested", "reopening after a restoration was killed too (%s killed at %s): %s", p.op.c_str(), p.at.c_str(), Str(st).c_str());
      Check(c, r, p, cpath, &d, &s);
      d.Close();
    }
    c.Sig(s.size() * 31 + p.im.Hash());
  }
  if (!r.points.empty()) c.nontrivial = true;
}
int main(int argc, char** argv) { return vh::Main(argc, argv, "C10", Case); }
