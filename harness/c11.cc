// C11: with appending updates, RESTORE_SYNC brings back exactly the last synchronized state, even when later writes were lost or torn.
#include "crash.h"
using namespace vh;

typedef std::map<std::string, std::string> Map;
static std::string Str(const Status& s) { return std::string(s); }

// The bytes which the device holds: what was synchronized, and the writes made since.
class DeviceHub : public FileHub {
 public:
  struct W { int64_t off; std::string data; };
  std::function<void(const FileOp&, bool before)> at;
  std::string base;          // the synchronized contents
  std::vector<W> pending;
  bool track = false, sloppy_meta = false;
  int64_t lost_ok = 0;
  static void Put(std::string* s, int64_t off, std::string_view d) {
    if (d.empty()) return;
    if ((int64_t)s->size() < off + (int64_t)d.size()) s->resize(off + d.size(), '\0');
    memcpy(&(*s)[off], d.data(), d.size());
  }
  void ApplyAll() { for (auto& w : pending) Put(&base, w.off, w.data); pending.clear(); }
  Status Before(File*, const FileOp& op) override {
    if (op.Mutates() && track && at) at(op, true);
    return Status(Status::SUCCESS);
  }
  void After(File*, const FileOp& op, const Status& st) override {
    if (!track) return;
    if (op.kind == FileOp::WRITE || op.kind == FileOp::APPEND) {
      // the metadata lies within one sector: it arrives as a whole, and at once unless the case says otherwise
      if (op.off == 0 && op.size == 128 && !sloppy_meta) Put(&base, 0, std::string_view((const char*)op.buf, op.size));
      else pending.push_back({op.off, std::string((const char*)op.buf, op.size)});
    } else if (op.kind == FileOp::SYNC && op.hard) {
      if (op.off == 0 && op.size == 0) ApplyAll();
      else {
        std::vector<W> rest;
        for (auto& w : pending) { if (w.off < op.off + (int64_t)op.size && w.off + (int64_t)w.data.size() > op.off) Put(&base, w.off, w.data); else rest.push_back(w); }
        pending.swap(rest);
      }
    } else if (op.kind == FileOp::TRUNCATE || op.kind == FileOp::FAKETRUNC) {
      ApplyAll();
      if ((int64_t)base.size() > op.off) base.resize(op.off);
    }
    if (op.Mutates() && at) at(op, false);
  }
};

struct Point { Image im; Map before, after; std::string op, at; bool lossy; bool meta_lost; };

struct Run {
  Ctx& c;
  Rng& g;
  bool tree, hard;
  FileCfg fc;
  HashDBM::TuningParameters hp;
  TreeDBM::TuningParameters tp;
  std::string dir, path;
  std::shared_ptr<DeviceHub> hub = std::make_shared<DeviceHub>();
  std::unique_ptr<DBM> d;
  Map cur, synced, next;     // contents; last synchronized; being synchronized
  bool in_sync = false, armed = false;
  std::string op;
  std::vector<Point> points;
  int pct = 5;
  size_t limit = 20;
  int nkeys = 20;
  const KeyOrder* order = nullptr;
  Run(Ctx& c_, Rng& g_) : c(c_), g(g_) {}

  std::string Physical() {
    std::string s;
    ReadAll(path, &s);
    return s;
  }
  void Hit(const FileOp& o, bool before) {
    if (!armed || points.size() >= limit) return;
    const bool meta = o.kind == FileOp::WRITE && o.off == 0;
    if (!g.P(in_sync || meta ? pct * 3 : pct)) return;
    Point p;
    p.before = synced; p.after = in_sync ? next : synced; p.op = op; p.meta_lost = false;
    p.at = Fmt("%s %s(%lld,%zu)", before ? "before" : "after", CrashHub::Name(o.kind), (long long)o.off, o.size);
    // what reached the device
    const bool can_lose = hard || !in_sync;
    p.lossy = can_lose && g.P(75);
    if (!p.lossy) {
      p.im = Image::Take(dir);
    } else {
      std::string img = hub->base;
      const int keep = (int)g.Pick({0, 30, 70, 95, 100});
      const size_t n = hub->pending.size();
      for (size_t i = 0; i < n; i++) {
        const auto& w = hub->pending[i];
        const bool meta_w = w.off == 0;
        if (!g.P(keep)) { if (meta_w) p.meta_lost = true; continue; }
        std::string_view data = w.data;
        if (i + 1 == n && g.P(50) && !meta_w) {
          // torn: a part of it, from either end
          const size_t m = g.U(data.size() + 1);
          if (g.P(70)) DeviceHub::Put(&img, w.off, data.substr(0, m));
          else DeviceHub::Put(&img, w.off + m, data.substr(m));
          continue;
        }
        DeviceHub::Put(&img, w.off, data);
      }
      // the size may have arrived or not
      const std::string phys = Physical();
      int64_t size = img.size();
      if (g.P(60)) size = std::max<int64_t>(size, phys.size());
      const std::string name = path.substr(dir.size() + 1);
      const size_t e = img.find_last_not_of('\0');
      img.resize(e == std::string::npos ? 0 : e + 1);
      p.im.files[name] = {size, img};
      c.Stat("lossy_points");
    }
    if (in_sync) c.Stat("points_in_synchronize");
    points.push_back(std::move(p));
  }
  std::string Key() { return tree && order->numeric ? order->make(g, nkeys) : Fmt("k%d", (int)g.U(nkeys)); }
  std::string Val() { const int t = (int)g.U(10); return std::string(t < 6 ? g.U(12) : t < 9 ? g.U(120) : g.U(2500), (char)('a' + g.U(26))); }
  void Ok(const Status& st) { VCHECK(c, st == Status::SUCCESS, "op", "%s: %s", op.c_str(), Str(st).c_str()); }
  Status OpenWith(DBM* db, const std::string& p, int32_t restore) {
    if (tree) { auto t = tp; t.restore_mode = restore; return static_cast<TreeDBM*>(db)->OpenAdvanced(p, true, File::OPEN_DEFAULT, t); }
    auto t = hp; t.restore_mode = restore;
    return static_cast<HashDBM*>(db)->OpenAdvanced(p, true, File::OPEN_DEFAULT, t);
  }
  std::unique_ptr<DBM> New(std::shared_ptr<FileHub> h, const FileCfg& f) {
    auto file = std::make_unique<WrapFile>(h, f);
    if (tree) return std::make_unique<TreeDBM>(std::move(file));
    return std::make_unique<HashDBM>(std::move(file));
  }
  void Open(int32_t restore) {
    hub->track = false; hub->pending.clear(); hub->base.clear();
    d = New(hub, fc);
    Ok(OpenWith(d.get(), path, restore));
    // opening leaves everything on the device
    hub->base = Physical();
    int64_t size = -1;
    if (!tree) size = static_cast<HashDBM*>(d.get())->GetFileSizeSimple();
    (void)size;
    hub->track = true;
    synced = cur;
  }
  // `eq` finds the stored key which an equal key stands for
  std::string Norm(const std::string& k) {
    if (!tree || order == nullptr) return k;
    for (auto& kv : cur) if (order->ref(kv.first, k) == 0) return kv.first;
    return k;
  }
  void Step() {
    const int k = (int)g.U(100);
    if (k < 45) {
      const std::string key = Key(), v = Val();
      op = "Set"; c.T(op + " " + key); Ok(d->Set(key, v)); cur[Norm(key)] = v;
    } else if (k < 60) {
      const std::string key = Key();
      op = "Remove"; c.T(op + " " + key); const Status st = d->Remove(key);
      VCHECK(c, (st == Status::SUCCESS) == (cur.erase(Norm(key)) > 0), "op", "Remove: %s", Str(st).c_str());
    } else if (k < 68) {
      const std::string key = Key(), v = Val();
      op = "Append"; c.T(op + " " + key); Ok(d->Append(key, v, ","));
      const std::string nk = Norm(key);
      if (cur.count(nk)) cur[nk] += "," + v; else cur[nk] = v;
    } else if (k < 74) {
      op = "ProcessMulti"; c.T(op);
      std::map<std::string, std::string> w;
      for (int i = (int)g.R(2, 4); i > 0; i--) w[Key()] = Val();
      std::vector<std::pair<std::string_view, DBM::RecordLambdaType>> ops;
      for (auto& kv : w) { const std::string* v = &kv.second; ops.push_back({kv.first, [v](std::string_view, std::string_view) -> std::string_view { return *v; }}); }
      Ok(d->ProcessMulti(ops, true));
      for (auto& kv : w) cur[Norm(kv.first)] = kv.second;
    } else if (k < 77) {
      op = "PopFirst"; if (cur.empty()) return; c.T(op);
      std::string key, v; Ok(d->PopFirst(&key, &v)); cur.erase(key);
    } else if (k < 80) {
      op = "iterate"; auto it = d->MakeIterator(); std::string key;
      for (Status st = it->First(); st == Status::SUCCESS && it->Get(&key) == Status::SUCCESS; it->Next()) {}
    } else if (k < 92) {
      const bool h = hard || g.P(20);
      op = h ? "Synchronize(hard)" : "Synchronize"; c.T(op);
      next = cur; in_sync = true;
      Ok(d->Synchronize(h));
      in_sync = false; synced = cur;
      if (!hard) hub->ApplyAll();  // only deaths of the process are looked at
      c.Stat("synchronizations");
    } else if (k < 95) {
      op = "Close"; c.T(op); next = cur; in_sync = true;
      hub->track = !hard;  // what reaches the device by closing is not promised
      Ok(d->Close()); in_sync = false; op = "Open"; Open(HashDBM::RESTORE_DEFAULT);
    } else {
      const std::string key = Key(); std::string v;
      const bool has = cur.count(Norm(key)) > 0;
      VCHECK(c, (d->Get(key, &v) == Status::SUCCESS) == has && (!has || v == cur[Norm(key)]), "op", "Get(%s)", key.c_str());
    }
  }
};

static bool Same(Run& r, DBM* d, const Map& want, std::string* why) {
  Map got; std::string last; bool first = true;
  auto it = d->MakeIterator();
  Status st = it->First();
  std::string k, v;
  while (st == Status::SUCCESS && (st = it->Get(&k, &v)) == Status::SUCCESS) {
    if (got.count(k)) { *why = "key " + Show(std::string_view(k)) + " twice"; return false; }
    if (r.tree && !first && r.order->ref(last, k) >= 0) { *why = "unordered"; return false; }
    got[k] = v; last = k; first = false;
    st = it->Next();
  }
  if (st != Status::SUCCESS && st != Status::NOT_FOUND_ERROR) { *why = "scan: " + Str(st); return false; }
  int64_t cnt = -1;
  d->Count(&cnt);
  if (got == want) {
    if (cnt != (int64_t)want.size()) { *why = Fmt("Count says %lld for %zu records", (long long)cnt, want.size()); return false; }
    for (auto& kv : want) if (d->Get(kv.first, &v) != Status::SUCCESS || v != kv.second) { *why = "Get(" + kv.first + ") differs"; return false; }
    return true;
  }
  for (auto& kv : want) { if (!got.count(kv.first)) { *why = kv.first + " missing"; return false; } if (got[kv.first] != kv.second) { *why = kv.first + " holds " + Show(std::string_view(got[kv.first])) + " instead of " + Show(std::string_view(kv.second)); return false; } }
  for (auto& kv : got) if (!want.count(kv.first)) { *why = kv.first + " extra"; return false; }
  return false;
}

static void Case(Ctx& c, Rng& g, int64_t) {
  Run r(c, g);
  r.tree = g.P(50);
  r.hard = g.P(60);
  r.hub->sloppy_meta = r.hard && g.P(25);
  auto file_cfg = [&] {
    FileCfg f = FileCfg::Make(g, true);
    if (f.block > 1) { f.block = 0; f.options = 0; }
    f.options = 0;
    if (f.alloc_init <= 0) { f.alloc_init = g.Pick<int64_t>({4096, 1 << 16}); f.alloc_inc = g.Pick({1.1, 2.0}); }
    return f;
  };
  r.fc = file_cfg();
  if (r.tree) RandTreeParams(g, &r.tp, &r.order); else RandHashParams(g, &r.hp);
  HashDBM::TuningParameters& t = r.tree ? r.tp : r.hp;
  t.update_mode = HashDBM::UPDATE_APPENDING;
  if (t.record_comp_mode == HashDBM::RECORD_COMP_LZMA) t.record_comp_mode = HashDBM::RECORD_COMP_NONE;
  if (t.offset_width < 4) t.offset_width = 4;
  r.nkeys = (int)g.Pick({4, 20, 60});
  r.dir = c.Path("db");
  mkdir(r.dir.c_str(), 0755);
  r.path = r.dir + (r.tree ? "/casket.tkt" : "/casket.tkh");
  const int lives = (int)g.R(1, 3);
  Describe(c, Fmt("%s %s hard=%d sloppy=%d %s keys=%d lives=%d", r.tree ? "tree" : "hash", r.fc.Str().c_str(), r.hard, r.hub->sloppy_meta,
                  r.tree ? TreeParamsStr(r.tp, r.order).c_str() : HashParamsStr(r.hp).c_str(), r.nkeys, lives));
  r.hub->at = [&](const FileOp& o, bool before) { r.Hit(o, before); };
  const std::string cdir = c.Path("crash"), cpath = cdir + r.path.substr(r.dir.size());
  for (int life = 0; life < lives; life++) {
    const int nops = (int)g.R(8, 70);
    r.pct = (int)g.Pick({2, 6, 15});
    r.limit = c.thorough ? 40 : 14;
    r.points.clear();
    r.op = "Open";
    r.armed = false;
    r.Open(HashDBM::RESTORE_SYNC);
    {
      std::string why;
      VCHECK(c, Same(r, r.d.get(), r.cur, &why), "reopened", "the next life differs: %s", why.c_str());
    }
    const int pre = (int)g.U(nops / 2);
    for (int i = 0; i < nops; i++) { r.armed = i >= pre; r.Step(); }
    r.op = "Close"; r.armed = !r.hard; r.next = r.cur; r.in_sync = true;
    r.hub->track = !r.hard;
    r.Ok(r.d->Close());
    r.in_sync = false; r.armed = false; r.hub->track = false;
    r.d.reset();
    Map chosen_map; Image chosen;
    bool have = false;
    for (auto& p : r.points) {
      p.im.Put(cdir);
      c.Stat("crash_points"); c.Eval(p.im.Hash());
      const std::string at = p.op + " stopped " + p.at + (p.lossy ? " (unsynchronized writes lost)" : "") + (p.meta_lost ? " (the mark of the open file too)" : "");
      c.T("restore after " + at);
      c.Reach(std::string(r.tree ? "tree " : "hash ") + p.op + (p.lossy ? " lossy" : " death") + (r.hard ? " hard" : " soft"));
      // a restoration can be stopped as well
      std::vector<Image> nested;
      auto hub2 = std::make_shared<CrashHub>();
      if (g.P(25)) { hub2->at = [&](const std::string& w) { if (nested.size() < 2 && g.P(w.compare(0, 6, "rename") == 0 ? 90 : 20)) nested.push_back(Image::Take(cdir)); }; hub2->HookSys(true); }
      struct Off { CrashHub& h; ~Off() { h.HookSys(false); } } off{*hub2};
      int32_t mode = HashDBM::RESTORE_SYNC;
      if (g.P(20)) mode |= HashDBM::RESTORE_NO_SHORTCUTS;
      if (g.P(10)) mode |= HashDBM::RESTORE_WITH_HARDSYNC;
      auto judge = [&](DBM* d, const Status& st, const char* when) {
        auto bad = [&](const char* key, const std::string& msg) {
          c.Fail(key, msg);
          return false;
        };
        if (st != Status::SUCCESS) return bad("reopen", Fmt("%sreopening after %s: %s", when, at.c_str(), Str(st).c_str()));
        bool healthy = r.tree ? static_cast<TreeDBM*>(d)->IsHealthy() : static_cast<HashDBM*>(d)->IsHealthy();
        if (!healthy) return bad("unhealthy", Fmt("%snot healthy after %s", when, at.c_str()));
        std::string why, why2;
        if (Same(r, d, p.before, &why)) { chosen_map = p.before; return true; }
        if (Same(r, d, p.after, &why2)) { chosen_map = p.after; c.Stat("state_after_interrupted_sync"); return true; }
        return bad("contents", Fmt("%sthe contents after %s are not the synchronized ones: %s", when, at.c_str(), why.c_str()));
      };
      bool ok;
      {
        auto d = r.New(hub2, g.P(60) ? r.fc : file_cfg());
        const Status st = r.OpenWith(d.get(), cpath, mode);
        hub2->HookSys(false); hub2->at = nullptr;
        ok = judge(d.get(), st, "");
        if (ok) {
          Map m = chosen_map;
          const std::string nk = r.Key();
          VCHECK(c, d->Set(nk, "v") == Status::SUCCESS, "use-after", "updates fail after %s", at.c_str());
          std::string nk2 = nk;
          if (r.tree) for (auto& kv : m) if (r.order->ref(kv.first, nk) == 0) nk2 = kv.first;
          m[nk2] = "v";
          std::string why;
          VCHECK(c, Same(r, d.get(), m, &why), "use-after", "contents differ after an update of the restored database (%s): %s", at.c_str(), why.c_str());
          VCHECK(c, d->Close() == Status::SUCCESS, "use-after", "Close fails after %s", at.c_str());
          auto d2 = r.New(std::make_shared<FileHub>(), r.fc);
          VCHECK(c, r.OpenWith(d2.get(), cpath, mode) == Status::SUCCESS && Same(r, d2.get(), m, &why), "use-after", "contents differ after closing the restored database (%s): %s", at.c_str(), why.c_str());
          d2->Close();
        }
      }
      if (ok) {
        for (auto& im : nested) {
          im.Put(cdir);
          c.Stat("nested_crash_points"); c.Eval(im.Hash());
          auto d = r.New(std::make_shared<FileHub>(), r.fc);
          const Status st = r.OpenWith(d.get(), cpath, HashDBM::RESTORE_SYNC);
          judge(d.get(), st, "after the restoration was stopped too, ");
          d->Close();
        }
        if (!p.meta_lost && (!have || g.P(30))) {
          // the state which this point gives back: the next life starts from it
          have = true; chosen = p.im;
        }
      }
    }
    if (!r.points.empty()) c.nontrivial = true;
    if (have && life + 1 < lives) {
      // which of the two states it is was decided by a restoration; look again
      chosen.Put(cdir);
      auto d = r.New(std::make_shared<FileHub>(), r.fc);
      if (r.OpenWith(d.get(), cpath, HashDBM::RESTORE_SYNC) != Status::SUCCESS) break;
      Map m; std::string k, v;
      auto it = d->MakeIterator();
      for (Status st = it->First(); st == Status::SUCCESS && it->Get(&k, &v) == Status::SUCCESS; st = it->Next()) m[k] = v;
      it.reset();
      d->Close(); d.reset();
      chosen.Put(r.dir);
      r.cur = m;
    } else if (life + 1 < lives) {
      // the file as it was closed
    }
    c.Sig(r.cur.size() * 31 + r.points.size());
  }
}
int main(int argc, char** argv) { return vh::Main(argc, argv, "C11", Case); }
