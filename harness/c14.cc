// C14: a failing file operation (or update logger) is reported, and costs no acknowledged record.
#include <optional>
#include "wrapfile.h"
using namespace vh;

typedef std::optional<std::string> OptS;
enum Kind { HASH, TREE, SKIP, NK };
static const char* kNames[] = {"HashDBM", "TreeDBM", "SkipDBM"};

class FaultHub : public FileHub {
 public:
  std::mutex mu;
  bool armed = false, reads = false, writes = true, ever_write = false, ever = false;
  int64_t n = 0, fail_at = -1, burst = 1, hits = 0;
  std::string failed;
  bool failed_read = false, failed_write = false;
  void Arm(int64_t at, int64_t b, bool rd, bool wr) { armed = true; n = 0; fail_at = at; burst = b; hits = 0; failed.clear(); failed_read = failed_write = false; reads = rd; writes = wr; }
  void Disarm() { armed = false; }
  static const char* Name(FileOp::Kind k) { static const char* s[] = {"open", "close", "read", "write", "append", "expand", "truncate", "faketrunc", "sync", "rename", "size"}; return s[k]; }
  Status Before(File*, const FileOp& op) override {
    std::lock_guard<std::mutex> l(mu);
    if (!armed) return Status(Status::SUCCESS);
    const bool rd = op.kind == FileOp::READ;
    if (op.kind == FileOp::CLOSE || op.kind == FileOp::FAKETRUNC) return Status(Status::SUCCESS);
    if (rd ? !reads : !writes) return Status(Status::SUCCESS);
    const int64_t i = n++;
    if (i < fail_at || i >= fail_at + burst) return Status(Status::SUCCESS);
    hits++;
    (rd ? failed_read : failed_write) = true;
    ever = true; if (!rd) ever_write = true;
    if (failed.empty()) failed = Fmt("%s(%lld,%zu)", Name(op.kind), (long long)op.off, op.size);
    return Status(Status::SYSTEM_ERROR, "injected");
  }
};
class FaultLogger : public DBM::UpdateLogger {
 public:
  int64_t n = 0, fail_at = -1, burst = 1, hits = 0;
  bool armed = false;
  std::vector<std::string> log;
  Status Do(std::string s) {
    if (armed) { const int64_t i = n++; if (i >= fail_at && i < fail_at + burst) { hits++; return Status(Status::APPLICATION_ERROR, "logger"); } }
    log.push_back(std::move(s));
    return Status(Status::SUCCESS);
  }
  Status WriteSet(std::string_view k, std::string_view v) override { return Do("S " + std::string(k)); }
  Status WriteRemove(std::string_view k) override { return Do("R " + std::string(k)); }
  Status WriteClear() override { return Do("C"); }
  Status Synchronize(bool) override { return Do("Y"); }
};

struct World {
  Ctx& c; Rng& g;
  Kind kind;
  FileCfg fc;
  HashDBM::TuningParameters hp; TreeDBM::TuningParameters tp; SkipDBM::TuningParameters sp;
  const KeyOrder* order = nullptr;
  std::shared_ptr<FaultHub> hub = std::make_shared<FaultHub>();
  FaultLogger logger;
  std::string path;
  std::unique_ptr<DBM> d;
  std::map<std::string, std::set<OptS>> m;      // the values each record may have; a missing key means absent
  static std::string SS(const Status& s) { return ToString(s); }
  void Open(bool wr = true) {
    auto f = std::make_unique<WrapFile>(hub, fc);
    Status st;
    if (kind == HASH) { auto x = std::make_unique<HashDBM>(std::move(f)); st = x->OpenAdvanced(path, wr, 0, hp); d = std::move(x); }
    else if (kind == TREE) { auto x = std::make_unique<TreeDBM>(std::move(f)); st = x->OpenAdvanced(path, wr, 0, tp); d = std::move(x); }
    else { auto x = std::make_unique<SkipDBM>(std::move(f)); st = x->OpenAdvanced(path, wr, 0, sp); d = std::move(x); }
    VCHECK(c, st == Status::SUCCESS, "reopen", "opening: %s", SS(st).c_str());
    VCHECK(c, d->IsHealthy(), "health", "the database is not healthy");
  }
  const std::set<OptS>& May(const std::string& k) { static const std::set<OptS> none{OptS()}; auto it = m.find(k); return it == m.end() ? none : it->second; }
  void Certain(const std::string& k, OptS v) { if (v) m[k] = {v}; else m.erase(k); }
  void Maybe(const std::string& k, OptS v) { auto s = May(k); s.insert(v); m[k] = s; }
  std::string Vals(const std::string& k) { std::string r; for (auto& v : May(k)) r += (r.empty() ? "" : " or ") + (v ? Show(std::string_view(*v), 30) : std::string("absent")); return r; }
  // All records have acknowledged values.
  void Check(const std::string& at) {
    std::map<std::string, std::string> got;
    auto it = d->MakeIterator();
    std::string k, v;
    Status st = it->First();
    while (st == Status::SUCCESS && (st = it->Get(&k, &v)) == Status::SUCCESS) {
      VCHECK(c, got.emplace(k, v).second || kind == HASH, "twice", "the record %s appears twice (%s)", Show(std::string_view(k)).c_str(), at.c_str());
      st = it->Next();
    }
    VCHECK(c, st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR, "scan", "scan: %s (%s)", SS(st).c_str(), at.c_str());
    for (auto& kv : got) VCHECK(c, May(kv.first).count(OptS(kv.second)), "lost", "record %s has the value %s, acknowledged is %s (%s)", Show(std::string_view(kv.first)).c_str(), Show(std::string_view(kv.second), 30).c_str(), Vals(kv.first).c_str(), at.c_str());
    for (auto& e : m) {
      st = d->Get(e.first, &v);
      VCHECK(c, st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR, "get", "Get(%s): %s (%s)", Show(std::string_view(e.first)).c_str(), SS(st).c_str(), at.c_str());
      const OptS x = st == Status::SUCCESS ? OptS(v) : OptS();
      VCHECK(c, e.second.count(x), "lost", "record %s: %s, acknowledged is %s (%s)", Show(std::string_view(e.first)).c_str(), x ? Show(std::string_view(*x), 30).c_str() : "absent", Vals(e.first).c_str(), at.c_str());
      VCHECK(c, x.has_value() == (got.count(e.first) > 0), "scan", "record %s: Get and the scan differ (%s)", Show(std::string_view(e.first)).c_str(), at.c_str());
    }
    bool sure = !hub->ever;
    for (auto& e : m) sure &= e.second.size() == 1;
    if (sure) { int64_t n = -1; st = d->Count(&n); VCHECK(c, st == Status::SUCCESS && n == (int64_t)got.size(), "count", "Count %lld, %zu records (%s)", (long long)n, got.size(), at.c_str()); }
    c.Stat("full_checks");
  }
};

static void SkipCase(Ctx& c, Rng& g, World& w);

// A known finding: the block of a failed update in place comes back with Rebuild.
static void Orphan(Ctx& c) {
  auto hub = std::make_shared<FaultHub>();
  FileCfg fc; fc.kind = 2;
  HashDBM d(std::make_unique<WrapFile>(hub, fc));
  HashDBM::TuningParameters tp; tp.num_buckets = 10; tp.align_pow = 0;
  d.OpenAdvanced(c.Path("orphan"), true, 0, tp);
  d.Set("k", "1");
  hub->Arm(1, 1, false, true);                        // the record is written, the bucket is not
  const Status st = d.Set("k", std::string(100, 'x'));
  hub->Disarm();
  const Status st2 = d.Set("k", "2");
  std::string a, b;
  d.Get("k", &a);
  const Status st3 = d.Rebuild();
  d.Get("k", &b);
  c.T("Set with a failing write: " + ToString(st) + ", Set: " + ToString(st2) + ", Rebuild: " + ToString(st3) + ", value " + Show(std::string_view(b)));
  if (st != Status::SUCCESS && st2 == Status::SUCCESS && st3 == Status::SUCCESS && a == "2" && b != "2")
    c.Record("inplace-orphan", "the record of a failed in-place Set replaces the acknowledged value with Rebuild: HashDBM::ProcessImpl, ImportFromFileForward");
  d.Close();
}

// TreeDBM: a failing write in an update of several records leaves no page locked.
static void TreeCase(Ctx& c, Rng& g, World& w) {
  w.tp.page_update_mode = TreeDBM::PAGE_UPDATE_WRITE;
  w.order = &KeyOrders()[0]; w.tp.key_comparator = w.order->comp; w.tp.max_page_size = (int)g.Pick({100, 1000, 8130}); w.tp.max_cached_pages = 10000;
  w.Open();
  for (int i = 0; i < 30; i++) VCHECK(c, w.d->Set(Fmt("k%02d", i), "v") == Status::SUCCESS, "set", "Set fails without a fault");
  for (int r = 0; r < 5; r++) {
    std::vector<std::string> ks; for (int j = 0; j < 4; j++) ks.push_back(Fmt("k%02d", (int)g.U(30)));
    std::vector<std::pair<std::string_view, DBM::RecordLambdaType>> kp;
    for (auto& k : ks) kp.push_back({k, [](std::string_view, std::string_view) -> std::string_view { return "w"; }});
    w.hub->Arm(g.U(6), g.Pick<int64_t>({1, 1000000}), false, true);
    Status st = w.d->ProcessMulti(kp, true);
    w.hub->Disarm();
    c.T("ProcessMulti: " + World::SS(st) + " failing " + w.hub->failed);
    if (w.hub->hits) { c.Stat("faults"); c.Reach("TreeDBM ProcessMulti failing " + w.hub->failed.substr(0, w.hub->failed.find('('))); c.Eval(HashStr(w.hub->failed)); }
    for (auto& k : ks) {
      c.T("Set(" + k + ")");
      st = w.d->Set(k, "x"); VCHECK(c, st == Status::SUCCESS, "status", "Set after the fault: %s", World::SS(st).c_str());
      std::string v; VCHECK(c, w.d->Get(k, &v) == Status::SUCCESS && v == "x", "lost", "the value set after the fault is %s", v.c_str());
    }
  }
  VCHECK(c, w.d->Close() == Status::SUCCESS, "close", "Close after the faults");
  c.Sig(1); c.nontrivial = true;
}

static void Case(Ctx& c, Rng& g, int64_t no) {
  if (no % 500 == 0) { static bool once = false; if (!once) { once = true; Orphan(c); } }
  World w{c, g, (Kind)g.Pick({0, 0, 0, 0, 0, 0, 1, 2, 2, 2})};
  w.fc = FileCfg::Make(g);
  if (w.fc.options & PositionalFile::ACCESS_PADDING) { w.fc.block = 0; w.fc.options = 0; }
  w.fc.options &= ~PositionalFile::ACCESS_PAGECACHE;
  RandHashParams(g, &w.hp);
  RandTreeParams(g, &w.tp, &w.order, true);
  for (HashDBM::TuningParameters* h : {&w.hp, (HashDBM::TuningParameters*)&w.tp}) {
    if (h->offset_width < 4) h->offset_width = 4;
    h->cache_buckets = -1; if (w.kind == TREE) h->num_buckets = g.Pick<int64_t>({1, 20, 1000});
    if (h->record_comp_mode == HashDBM::RECORD_COMP_LZMA) h->record_comp_mode = HashDBM::RECORD_COMP_NONE;
  }
  w.path = c.Path("db");
  const bool with_log = w.kind == HASH && g.P(30);
  const bool tree_reads = w.kind == TREE && g.P(30);
  Describe(c, std::string(kNames[w.kind]) + (with_log ? " logger " : " ") + w.fc.Str() + (w.kind == HASH ? " " + HashParamsStr(w.hp) : w.kind == TREE ? " " + TreeParamsStr(w.tp, w.order) : ""));
  c.Sig(c.desc);
  if (w.kind == TREE) { TreeCase(c, g, w); return; }
  if (w.kind == SKIP) { SkipCase(c, g, w); return; }
  w.Open();
  const bool numeric = w.kind == TREE && w.order->name != KeyOrders()[0].name;
  const int space = (int)g.Pick({10, 60, 300});
  auto key = [&] { const int i = (int)g.U(space); return numeric ? Fmt("%d", i + 1) : Fmt("key-%03d", i); };
  auto val = [&] { std::string v(g.U(g.Pick({4, 30, 200, 2000})), (char)('a' + g.U(26))); return v; };
  const int pre = (int)g.Pick({0, 20, 200});
  for (int i = 0; i < pre; i++) { const std::string k = key(), v = val(); VCHECK(c, w.d->Set(k, v) == Status::SUCCESS, "set", "Set fails without a fault"); w.Certain(k, v); }
  if (g.P(50)) { Status st = w.d->Synchronize(false); VCHECK(c, st == Status::SUCCESS, "sync", "Synchronize: %s", World::SS(st).c_str()); }
  if (g.P(30)) { VCHECK(c, w.d->Close() == Status::SUCCESS, "close", "Close"); w.Open(); }
  if (with_log) w.d->SetUpdateLogger(&w.logger);
  const int ops = (int)g.Pick({30, 100, c.thorough ? 600 : 200});
  const int fault_pct = (int)g.Pick({5, 20, 50});
  bool dead = false;
  for (int i = 0; i < ops && !dead; i++) {
    const bool fault = g.P(fault_pct);
    const int t = (int)g.U(100);
    const bool reader = t >= 60 && t < 80;
    if (fault) {
      const bool rd = w.kind == HASH ? g.P(50) : tree_reads && reader, wr = !rd || g.P(50);
      w.hub->Arm(g.Pick<int64_t>({(int64_t)g.U(3), (int64_t)g.U(8), (int64_t)g.U(60)}), g.Pick<int64_t>({1, 1, 2, 5, 1000000}), rd, wr);
      if (with_log && g.P(50)) { w.hub->Disarm(); w.logger.armed = true; w.logger.n = 0; w.logger.hits = 0; w.logger.fail_at = g.U(3); w.logger.burst = g.Pick<int64_t>({1, 1000}); }
    }
    std::string op; Status st(Status::SUCCESS);
    // verdict of an update: success makes it certain, a failure leaves both
    auto fin = [&]() {
      w.hub->Disarm(); w.logger.armed = false;
      const bool hit = fault && w.hub->hits > 0, lhit = fault && w.logger.hits > 0;
      if (hit || lhit) {
        c.Stat("faults"); c.Reach(std::string(kNames[w.kind]) + " " + op.substr(0, op.find('(')) + (lhit ? " failing logger" : " failing " + w.hub->failed.substr(0, w.hub->failed.find('('))));
        c.Eval(HashStr(op + w.hub->failed));
      }
      c.T(op + ": " + World::SS(st) + (hit ? " failing " + w.hub->failed : lhit ? " failing logger" : ""));
      if (!hit && !lhit) return 0;
      return lhit ? 2 : 1;
    };
    auto why = [&]() { return w.hub->hits ? w.hub->failed : std::string("the logger"); };
    if (t < 26) {                                     // Set / overwrite or not
      const std::string k = key(), v = val(); const bool ow = g.P(75);
      op = Fmt("Set(%s,%zu,%d)", k.c_str(), v.size(), ow);
      const auto before = w.May(k);
      st = w.d->Set(k, v, ow);
      const int f = fin();
      if (f) VCHECK(c, st != Status::SUCCESS || (f == 1 && w.kind == TREE && false), "swallowed", "%s reports success although %s failed", op.c_str(), why().c_str());
      else VCHECK(c, st == Status::SUCCESS || (st == Status::DUPLICATION_ERROR && !ow), "status", "%s: %s without a fault", op.c_str(), World::SS(st).c_str());
      if (st == Status::SUCCESS) { VCHECK(c, ow || before.count(OptS()), "result", "%s succeeds on an existing record", op.c_str()); w.Certain(k, v); }
      else if (st == Status::DUPLICATION_ERROR) { bool may = false; for (auto& x : before) may |= x.has_value(); VCHECK(c, may && !ow, "result", "%s: duplication, the record is absent", op.c_str()); }
      else if (f == 1) { if (ow || before.count(OptS())) w.Maybe(k, v); }
    } else if (t < 38) {                              // Remove
      const std::string k = key(); const auto before = w.May(k);
      op = Fmt("Remove(%s)", k.c_str());
      std::string old = "?";
      st = w.d->Remove(k, &old);
      const int f = fin();
      if (f) VCHECK(c, st != Status::SUCCESS && (st != Status::NOT_FOUND_ERROR || false), "swallowed", "%s reports %s although %s failed", op.c_str(), World::SS(st).c_str(), why().c_str());
      else VCHECK(c, st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR, "status", "%s: %s without a fault", op.c_str(), World::SS(st).c_str());
      if (st == Status::SUCCESS) { VCHECK(c, before.count(OptS(old)), "result", "%s returns the old value %s, acknowledged %s", op.c_str(), Show(std::string_view(old), 30).c_str(), w.Vals(k).c_str()); w.Certain(k, OptS()); }
      else if (st == Status::NOT_FOUND_ERROR) { VCHECK(c, before.count(OptS()), "lost", "%s: the record does not exist, acknowledged %s", op.c_str(), w.Vals(k).c_str()); }
      else if (f == 1) w.Maybe(k, OptS());
    } else if (t < 46) {                              // Append
      const std::string k = key(), v = val(); const auto before = w.May(k);
      op = Fmt("Append(%s,%zu)", k.c_str(), v.size());
      st = w.d->Append(k, v, ",");
      const int f = fin();
      std::set<OptS> after;
      for (auto& x : before) after.insert(x ? *x + "," + v : v);
      if (f) VCHECK(c, st != Status::SUCCESS, "swallowed", "%s reports success although %s failed", op.c_str(), why().c_str());
      else VCHECK(c, st == Status::SUCCESS, "status", "%s: %s without a fault", op.c_str(), World::SS(st).c_str());
      if (st == Status::SUCCESS) w.m[k] = after;
      else if (f == 1) for (auto& x : after) w.Maybe(k, x);
    } else if (t < 54) {                              // several records at once
      std::map<std::string, OptS> ups;
      const int n = (int)g.R(2, 5);
      for (int j = 0; j < n; j++) { const std::string k = key(); ups[k] = g.P(70) ? OptS(val()) : OptS(); }
      std::vector<std::pair<std::string_view, DBM::RecordLambdaType>> kp;
      for (auto& u : ups) kp.push_back({u.first, [&](std::string_view, std::string_view) -> std::string_view { return u.second ? std::string_view(*u.second) : DBM::RecordProcessor::REMOVE; }});
      op = Fmt("ProcessMulti(%zu)", ups.size());
      st = w.d->ProcessMulti(kp, true);
      const int f = fin();
      if (f) VCHECK(c, st != Status::SUCCESS, "swallowed", "%s reports success although %s failed", op.c_str(), why().c_str());
      else VCHECK(c, st == Status::SUCCESS, "status", "%s: %s without a fault", op.c_str(), World::SS(st).c_str());
      for (auto& u : ups) { if (st == Status::SUCCESS) w.Certain(u.first, u.second); else if (f) w.Maybe(u.first, u.second); }
    } else if (t < 60) {                              // update of each record
      op = "ProcessEach";
      std::map<std::string, OptS> ups;
      const int x = (int)g.U(26);
      struct P : DBM::RecordProcessor {
        std::map<std::string, OptS>& ups; int x; std::string buf;
        P(std::map<std::string, OptS>& u, int x) : ups(u), x(x) {}
        std::string_view ProcessFull(std::string_view k, std::string_view v) override {
          const uint64_t h = HashStr(k) + x;
          if (h % 4) return NOOP;
          if (h % 12 == 0) { ups[std::string(k)] = OptS(); return REMOVE; }
          buf.assign(h % 40, (char)('a' + x)); ups[std::string(k)] = buf; return buf;
        }
        std::string_view ProcessEmpty(std::string_view) override { return NOOP; }
      } p(ups, x);
      st = w.d->ProcessEach(&p, true);
      const int f = fin();
      if (f) VCHECK(c, st != Status::SUCCESS, "swallowed", "%s reports success although %s failed", op.c_str(), why().c_str());
      else VCHECK(c, st == Status::SUCCESS, "status", "%s: %s without a fault", op.c_str(), World::SS(st).c_str());
      for (auto& u : ups) { if (st == Status::SUCCESS) w.Certain(u.first, u.second); else w.Maybe(u.first, u.second); }
    } else if (t < 74) {                              // Get
      const std::string k = key();
      op = Fmt("Get(%s)", k.c_str());
      std::string v;
      st = w.d->Get(k, &v);
      const int f = fin();
      if (f) VCHECK(c, st != Status::SUCCESS && st != Status::NOT_FOUND_ERROR, "swallowed", "%s: %s although %s failed", op.c_str(), World::SS(st).c_str(), why().c_str());
      if (!f || st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR) {
        VCHECK(c, st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR, "status", "%s: %s without a fault", op.c_str(), World::SS(st).c_str());
        const OptS x = st == Status::SUCCESS ? OptS(v) : OptS();
        VCHECK(c, w.May(k).count(x), "lost", "%s: %s, acknowledged %s", op.c_str(), x ? Show(std::string_view(*x), 30).c_str() : "absent", w.Vals(k).c_str());
      }
    } else if (t < 80) {                              // scan
      op = "scan";
      auto it = w.d->MakeIterator();
      std::set<std::string> seen;
      std::string k, v;
      st = it->First();
      while (st == Status::SUCCESS && (st = it->Get(&k, &v)) == Status::SUCCESS) {
        VCHECK(c, w.May(k).count(OptS(v)), "lost", "scan: record %s has %s, acknowledged %s", k.c_str(), Show(std::string_view(v), 30).c_str(), w.Vals(k).c_str());
        seen.insert(k); st = it->Next();
      }
      const int f = fin();
      if (f) VCHECK(c, st != Status::SUCCESS && st != Status::NOT_FOUND_ERROR, "swallowed", "a scan ends with %s although %s failed", World::SS(st).c_str(), why().c_str());
      else { VCHECK(c, st == Status::NOT_FOUND_ERROR, "status", "scan: %s", World::SS(st).c_str());
        for (auto& e : w.m) VCHECK(c, seen.count(e.first) || e.second.count(OptS()), "lost", "scan: record %s is missing", e.first.c_str()); }
    } else if (t < 89) {                              // Synchronize
      const bool hard = g.P(30);
      op = Fmt("Synchronize(%d)", hard);
      st = w.d->Synchronize(hard);
      const int f = fin();
      if (f) VCHECK(c, st != Status::SUCCESS, "swallowed", "%s reports success although %s failed", op.c_str(), why().c_str());
      else VCHECK(c, st == Status::SUCCESS, "status", "%s: %s without a fault", op.c_str(), World::SS(st).c_str());
    } else if (t < 92) {                              // Rebuild
      // Rebuilding replays every record block, so blocks of failed updates come back (known finding).
      if (w.hub->ever_write) { w.hub->Disarm(); w.logger.armed = false; continue; }
      op = "Rebuild";
      st = w.d->Rebuild();
      const int f = fin();
      if (f && w.hub->failed_write) VCHECK(c, st != Status::SUCCESS, "swallowed", "%s reports success although %s failed", op.c_str(), why().c_str());
      else if (!f) VCHECK(c, st == Status::SUCCESS, "status", "%s: %s without a fault", op.c_str(), World::SS(st).c_str());
      if (f && w.hub->failed == "read(0,128)" && st != Status::SUCCESS) { w.d->Close(); c.nontrivial = true; return; }  // the new file may be unknown to the object
    } else if (t < 95) {                              // Close and open again, without faults
      w.hub->Disarm(); w.logger.armed = false;
      op = "Close";
      st = w.d->Close();
      c.T(op + ": " + World::SS(st));
      VCHECK(c, st == Status::SUCCESS, "close", "Close after the faults: %s", World::SS(st).c_str());
      w.Open();
      w.Check("reopened");
      if (with_log) w.d->SetUpdateLogger(&w.logger);
    } else { w.hub->Disarm(); w.logger.armed = false; w.Check("no fault"); }
    w.hub->hits = 0; w.logger.hits = 0;
  }
  w.Check("at the end");
  Status st = w.d->Close();
  VCHECK(c, st == Status::SUCCESS, "close", "Close after the faults: %s", World::SS(st).c_str());
  w.Open(g.P(50));
  w.Check("reopened at the end");
  w.d->Close();
  c.Sig(w.m.size()); c.nontrivial = true;
}

// SkipDBM: updates become visible with Synchronize; a failing one leaves the contents of the last successful one.
static void SkipCase(Ctx& c, Rng& g, World& w) {
  w.sp.offset_width = (int)g.Pick({3, 4}); w.sp.step_unit = (int)g.Pick({2, 4}); w.sp.max_level = (int)g.Pick({1, 4, 14});
  w.sp.sort_mem_size = g.Pick<int64_t>({300, 10000000}); w.sp.insert_in_order = g.P(20);
  w.Open();
  typedef std::vector<std::pair<std::string, std::string>> Recs;
  auto scan = [&](DBM* d, const std::string& at) {
    Recs r; auto it = d->MakeIterator(); std::string k, v; Status st = it->First();
    while (st == Status::SUCCESS && (st = it->Get(&k, &v)) == Status::SUCCESS) { r.push_back({k, v}); st = it->Next(); }
    VCHECK(c, st == Status::NOT_FOUND_ERROR || st == Status::SUCCESS, "scan", "scan: %s (%s)", World::SS(st).c_str(), at.c_str());
    const int64_t n = d->CountSimple();
    VCHECK(c, n == (int64_t)r.size(), "count", "Count %lld, %zu records (%s)", (long long)n, r.size(), at.c_str());
    return r;
  };
  std::map<std::string, std::string> m;
  Recs disk;
  int seq = 0;
  const int rounds = (int)g.R(2, 8);
  for (int r = 0; r < rounds; r++) {
    const int u = (int)g.Pick({0, 3, 40, 300});
    const bool flt = g.P(40);
    auto nm = m;
    bool update_failed = false;
    for (int i = 0; i < u; i++) {
      const bool f1 = flt && g.P(3);
      if (f1) w.hub->Arm(g.U(3), 1, false, true);
      const std::string k = w.sp.insert_in_order ? Fmt("k%06d", seq++) : Fmt("k%03d", (int)g.U(400));
      Status st;
      if (!w.sp.insert_in_order && g.P(25)) { st = w.d->Remove(k); if (st == Status::SUCCESS) nm.erase(k); }
      else { const std::string v(g.U(g.Pick({3, 30, 600})), (char)('a' + g.U(26))); if (nm.count(k)) { st = w.d->Remove(k); w.hub->Disarm(); } st = w.d->Set(k, v); if (st == Status::SUCCESS) nm[k] = v; }
      w.hub->Disarm();
      if (f1 && w.hub->hits) { c.Stat("faults"); update_failed = true; c.T("update failing " + w.hub->failed + ": " + World::SS(st)); VCHECK(c, st != Status::SUCCESS, "swallowed", "an update reports success although %s failed", w.hub->failed.c_str()); w.hub->hits = 0; break; }
      VCHECK(c, st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR, "status", "update: %s", World::SS(st).c_str());
    }
    if (update_failed) { static_cast<SkipDBM*>(w.d.get())->Revert(); nm = m; }
    // reads with faults
    if (g.P(50) && !disk.empty()) {
      w.hub->Arm(g.U(4), g.Pick<int64_t>({1, 1000}), true, false);
      auto& e = disk[g.U(disk.size())];
      std::string v; Status st = w.d->Get(e.first, &v);
      w.hub->Disarm();
      c.T("Get: " + World::SS(st) + " " + w.hub->failed);
      if (w.hub->hits) { c.Stat("faults"); c.Reach("SkipDBM Get failing read"); VCHECK(c, st != Status::SUCCESS && st != Status::NOT_FOUND_ERROR, "swallowed", "Get: %s although %s failed", World::SS(st).c_str(), w.hub->failed.c_str()); }
      else VCHECK(c, st == Status::SUCCESS && v == e.second, "lost", "Get: %s", World::SS(st).c_str());
      w.hub->hits = 0;
    }
    const bool f2 = g.P(50);
    if (f2) w.hub->Arm(g.Pick<int64_t>({(int64_t)g.U(4), (int64_t)g.U(20), (int64_t)g.U(400)}), g.Pick<int64_t>({1, 1, 3, 1000000}), g.P(40), g.P(85));
    const bool reb = g.P(15);
    Status st = reb ? w.d->Rebuild() : w.d->Synchronize(g.P(30));
    w.hub->Disarm();
    const bool hit = f2 && w.hub->hits;
    const std::string op = reb ? "Rebuild" : "Synchronize";
    c.T(op + ": " + World::SS(st) + (hit ? " failing " + w.hub->failed : ""));
    Recs nd; for (auto& kv : nm) nd.push_back(kv);
    const Recs got = scan(w.d.get(), op + (hit ? " failing " + w.hub->failed : ""));
    if (hit) { c.Stat("faults"); c.Reach("SkipDBM " + op + " failing " + w.hub->failed.substr(0, w.hub->failed.find('('))); c.Eval(HashStr(w.hub->failed) + u);
      VCHECK(c, st != Status::SUCCESS, "swallowed", "%s reports success although %s failed", op.c_str(), w.hub->failed.c_str());
      VCHECK(c, got == disk || got == nd, "lost", "after %s with failing %s: %zu records, neither the previous %zu nor the new %zu", op.c_str(), w.hub->failed.c_str(), got.size(), disk.size(), nd.size());
    } else {
      VCHECK(c, st == Status::SUCCESS, "status", "%s: %s without a fault", op.c_str(), World::SS(st).c_str());
      VCHECK(c, got == nd, "lost", "after %s: %zu records instead of %zu", op.c_str(), got.size(), nd.size());
    }
    w.hub->hits = 0;
    disk = got; m.clear(); for (auto& kv : got) m[kv.first] = kv.second;
    if (g.P(30) || r + 1 == rounds) {
      st = w.d->Close();
      VCHECK(c, st == Status::SUCCESS, "close", "Close after the faults: %s", World::SS(st).c_str());
      w.Open();
      VCHECK(c, scan(w.d.get(), "reopened") == disk, "lost", "reopened: the contents differ");
    }
  }
  w.d->Close();
  c.Sig(disk.size()); c.nontrivial = true;
}
int main(int argc, char** argv) { return vh::Main(argc, argv, "C14", Case); }
