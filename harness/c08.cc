// C08: multi-record operations are atomic and isolated.
#include "anydb.h"
#include "linz.h"
#include "wrapfile.h"
using namespace vh;
using namespace tkrzw;

struct Sub { int key; char act; int64_t arg; bool has; std::string old; std::string val; };  // act: r read, s set, d delete, a add
struct MOp {
  enum Kind { MULTI, CEM, REKEY, EACH, GET, SET, REMOVE } kind = MULTI;
  int64_t t0 = 0, t1 = 0;
  int thread = 0, code = 0;
  std::vector<Sub> subs, desired;   // CEM: act 'e' expected value, 'n' none, '*' any; desired: 's'/'d'
  int k1 = 0, k2 = 0;
  bool overwrite = false, copying = false, has = false;
  std::string val;
};
typedef std::vector<std::optional<std::string>> State;

static bool Apply(const MOp& o, State* st) {
  State& s = *st;
  const int OK = Status::SUCCESS, NF = Status::NOT_FOUND_ERROR, DUP = Status::DUPLICATION_ERROR, INF = Status::INFEASIBLE_ERROR;
  switch (o.kind) {
    case MOp::MULTI:
      if (o.code != OK) return false;
      for (auto& u : o.subs) {
        if (u.has != s[u.key].has_value() || (u.has && u.old != *s[u.key])) return false;
        if (u.act == 's' || u.act == 'a') s[u.key] = u.val;
        if (u.act == 'd') s[u.key].reset();
      }
      return true;
    case MOp::EACH:
      if (o.code != OK) return false;
      for (auto& u : o.subs) if (u.has != s[u.key].has_value() || (u.has && u.old != *s[u.key])) return false;
      return true;
    case MOp::CEM: {
      bool met = true;
      for (auto& u : o.subs) {
        const auto& cur = s[u.key];
        if (u.act == 'n' ? cur.has_value() : u.act == '*' ? !cur.has_value() : !cur.has_value() || *cur != u.val) met = false;
      }
      if (o.code != (met ? OK : INF)) return false;
      if (met) for (auto& u : o.desired) { if (u.act == 'd') s[u.key].reset(); else s[u.key] = u.val; }
      return true;
    }
    case MOp::REKEY: {
      const bool e1 = s[o.k1].has_value(), e2 = s[o.k2].has_value();
      if (o.code == NF) return !e1;
      if (o.code == DUP) return !o.overwrite && e2;
      if (o.code != OK || !e1 || (!o.overwrite && e2)) return false;
      std::string v = *s[o.k1];
      if (o.val != v) return false;
      if (!o.copying) s[o.k1].reset();
      s[o.k2] = v;
      return true;
    }
    case MOp::GET:
      return o.code == (s[o.k1] ? OK : NF) && (!s[o.k1] || *s[o.k1] == o.val);
    case MOp::SET:
      if (o.code != OK) return false;
      s[o.k1] = o.val;
      return true;
    case MOp::REMOVE:
      if (o.code != (s[o.k1] ? OK : NF)) return false;
      s[o.k1].reset();
      return true;
  }
  return false;
}
static uint64_t HashState(const State& s) { uint64_t h = 1; for (auto& x : s) h = Mix(h ^ (x ? HashStr(*x) : 77)); return h; }
static std::string Str(const MOp& o) {
  static const char* n[] = {"ProcessMulti", "CompareExchangeMulti", "Rekey", "ProcessEach", "Get", "Set", "Remove"};
  std::string r = Fmt("T%d %s", o.thread, n[o.kind]);
  for (auto& u : o.subs) r += Fmt(" k%d:%c%s%s%s%s", u.key, u.act, u.has ? " old=" : "", u.has ? Show(u.old, 12).c_str() : "", u.val.empty() ? "" : " ", u.val.empty() ? "" : Show(u.val, 12).c_str());
  if (o.kind == MOp::CEM) { r += " =>"; for (auto& u : o.desired) r += Fmt(" k%d:%c %s", u.key, u.act, Show(u.val, 12).c_str()); }
  if (o.kind == MOp::REKEY) r += Fmt(" k%d->k%d overwrite=%d copying=%d val=%s", o.k1, o.k2, o.overwrite, o.copying, Show(o.val, 12).c_str());
  if (o.kind >= MOp::GET) r += Fmt(" k%d %s", o.k1, Show(o.val, 12).c_str());
  return r + Fmt(" -> %d", o.code);
}

// Producers PushLast and consumers PopFirst: every record comes out exactly once.
static void QueueCase(Ctx& c, Rng& g, AnyDB& a, DBM* d) {
  const int np = (int)g.R(1, 3), nc = (int)g.R(1, 4), per = (int)g.Pick({10, 40, 120});
  const bool real_time = g.P(40);
  Describe(c, Fmt("queue producers=%d consumers=%d each=%d realtime=%d ", np, nc, per, real_time) + a.desc);
  std::vector<std::vector<std::pair<std::string, std::string>>> pushed(np), popped(nc);
  std::atomic<int> live{np}, total{0};
  std::mutex emu; std::string err;
  auto fail = [&](const std::string& m) { std::lock_guard<std::mutex> l(emu); if (err.empty()) err = m; };
  std::vector<std::thread> th;
  for (int p = 0; p < np; p++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, p, seed] {
      Rng r(seed);
      for (int i = 0; i < per; i++) {
        std::string key, val = Fmt("%d:%d:", p, i) + std::string(r.U(20), 'v');
        // Whole numbers of ticks, so that producers collide
        Status st = d->PushLast(val, real_time ? -1 : (double)(i / 3) / 1000, &key);
        if (st != Status::SUCCESS || key.size() != 8) fail("PushLast: " + SS(st));
        pushed[p].emplace_back(key, val);
        if (r.P(20)) std::this_thread::yield();
      }
      live--;
    });
  }
  for (int q = 0; q < nc; q++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, q, seed] {
      Rng r(seed);
      int idle = 0;
      while (idle < 2) {
        const bool done = live == 0;
        std::string k = "?", v = "?";
        Status st(Status::SUCCESS);
        bool got = true;
        if (r.P(60)) st = d->PopFirst(&k, &v);
        else {
          int calls = 0;
          st = d->ProcessFirst([&](std::string_view kk, std::string_view vv) -> std::string_view { calls++; k = std::string(kk); v = std::string(vv); if (r.P(20)) std::this_thread::yield(); return DBM::RecordProcessor::REMOVE; }, true);
          if (calls != (st == Status::SUCCESS ? 1 : 0)) fail(Fmt("ProcessFirst called its processor %d times with the status ", calls) + SS(st));
        }
        if (st == Status::NOT_FOUND_ERROR) { got = false; if (done) idle++; else std::this_thread::sleep_for(std::chrono::microseconds(50)); }
        else if (st != Status::SUCCESS) { fail("PopFirst: " + SS(st)); break; }
        if (got) { popped[q].emplace_back(k, v); total++; }
      }
    });
  }
  for (auto& x : th) x.join();
  if (!err.empty()) c.Fail("queue:status", err);
  std::map<std::string, int> where;
  std::map<std::string, std::string> all;
  for (auto& p : pushed) for (auto& kv : p) all[kv.second] = kv.first;
  for (int q = 0; q < nc; q++) {
    std::map<char, int> last;
    for (auto& kv : popped[q]) {
      auto it = all.find(kv.second);
      if (it == all.end()) c.Fail("queue:unknown", "a consumer got a record which nobody pushed: " + Show(kv.second));
      if (it->second != kv.first) c.Fail("queue:key", "a consumer got a record with another key");
      if (where[kv.second]++) c.Fail("queue:twice", "two consumers got " + Show(kv.second));
      if (a.ordered && !real_time) {
        const int seq = atoi(kv.second.c_str() + 2);
        if (last.count(kv.second[0]) && seq < last[kv.second[0]] && a.shards == 1 && a.cls != "ShardDBM") {
          // Earlier records of the same producer were there, with smaller keys
          const std::string& k1 = kv.first;
          bool wrong = true;
          for (auto& kv2 : popped[q]) if (&kv2 == &kv) break; else if (atoi(kv2.second.c_str() + 2) > seq && kv2.second[0] == kv.second[0] && kv2.first < k1) wrong = false;
          if (wrong) c.Fail("queue:order", Fmt("a consumer of an ordered database got record %d of a producer after record %d", seq, last[kv.second[0]]));
        }
        last[kv.second[0]] = seq;
      }
    }
  }
  VCHECK(c, where.size() == all.size(), "queue:lost", "%zu of %zu pushed records were popped", where.size(), all.size());
  int64_t cnt = -1;
  d->Count(&cnt);
  VCHECK(c, cnt == 0, "queue:left", "%lld records are left", (long long)cnt);
  c.Stat("queue_records", (int64_t)all.size());
  c.nontrivial = true;
  c.Reach(a.inner + (a.cls != a.inner ? "/" + a.cls : "") + " queue");
}

static void Case(Ctx& c, Rng& g, int64_t n) {
  AnyOpt ao;
  ao.tiny_trees = true; ao.small = true; ao.orders = false;
  if (g.P(40)) ao.classes = {"HashDBM", "TreeDBM", "TinyDBM", "BabyDBM", "CacheDBM", "ShardDBM"};
  AnyDB a = AnyDB::Make(g, c.dir, ao);
  const int nthreads = (int)g.R(2, 5), nkeys = (int)g.R(2, 7), nops = (int)g.Pick({12, 30, 60});
  const bool delay = (a.cls == "HashDBM" || a.cls == "TreeDBM") && g.P(50);
  if (delay) {
    auto hub = std::make_shared<DelayHub>(g.Next(), (int)g.Pick({3, 10}), (int)g.Pick({5, 60}));
    a.fc.block = 0; a.fc.options = 0;
    FileCfg fc = a.fc;
    a.file_maker = [hub, fc] { return std::make_unique<WrapFile>(hub, fc); };
  }
  auto d = a.New();
  Status s = a.Open(d.get());
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  if (g.P(15)) { c.Sig("queue" + a.desc); QueueCase(c, g, a, d.get()); d->Close(); return; }
  // In ShardDBM, transactions are isolated from each other (0), and CompareExchangeMulti from everything (1)
  const int shard_mode = a.cls == "ShardDBM" ? (int)g.R(1, 2) : 0;
  const bool each_atomic = a.cls != "ShardDBM" && (a.inner == "HashDBM" || a.inner == "TinyDBM" || a.inner == "StdHashDBM" || a.inner == "StdTreeDBM");
  const int disturb = (int)g.U(4);  // 2 rebuild/sync, 3 churn
  const int style = (int)g.U(3);    // 0 everything, 1 transfers, 2 rekeys
  Describe(c, Fmt("threads=%d keys=%d ops=%d delay=%d disturb=%d style=%d ", nthreads, nkeys, nops, delay, disturb, style) + a.desc);
  c.Sig(c.desc);
  std::vector<std::string> keys;
  for (int i = 0; i < nkeys; i++) keys.push_back(Fmt("k%03d", i * 7) + (g.P(10) ? std::string(g.U(200), 'x') : ""));
  std::map<std::string, int> kid;
  for (int i = 0; i < nkeys; i++) kid[keys[i]] = i;
  State init(nkeys);
  for (int i = 0; i < nkeys; i++) if (g.P(80)) {
    init[i] = Fmt("%d", (int)g.U(100));
    s = d->Set(keys[i], *init[i]);
    VCHECK(c, s == Status::SUCCESS, "set", "%s", SS(s).c_str());
  }
  const int fill = (int)g.Pick({0, 0, 10, 100});
  for (int i = 0; i < fill; i++) d->Set(Fmt("k%03d+%d", (int)g.U(50), i), g.Bytes(g.U(40)));
  std::vector<std::vector<MOp>> logs(nthreads);
  std::atomic<int> running{nthreads}, errs{0};
  std::mutex emu;
  std::string err;
  auto fail = [&](const std::string& m) { std::lock_guard<std::mutex> l(emu); if (err.empty()) err = m; errs++; };
  std::vector<std::thread> th;
  for (int t = 0; t < nthreads; t++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, t, seed] {
      Rng r(seed);
      auto val = [&](int i) { return Fmt("%d.%d", t, i) + std::string(r.P(20) ? r.U(80) : r.U(5), 'a' + t); };
      for (int i = 0; i < nops && errs == 0; i++) {
        MOp o;
        o.thread = t;
        int x = (int)r.U(100);
        if (style == 1) x = x < 80 ? (int)r.U(60) : x;
        if (style == 2) x = x < 60 ? 62 : x;
        if (shard_mode == 1) x = x < 60 ? x * 2 / 3 : 62;                 // ProcessMulti and Rekey
        if (shard_mode == 2) x = x < 60 ? 50 : 80 + (int)r.U(20);        // CompareExchangeMulti and single-record operations
        if (x < 40) {
          o.kind = MOp::MULTI;
          const bool wr = r.P(75);
          const int m = (int)r.R(1, 5);
          const bool pause = r.P(40);
          std::vector<std::pair<std::string_view, DBM::RecordLambdaType>> pairs;
          o.subs.resize(m);
          int calls = 0;
          for (int q = 0; q < m; q++) {
            Sub& u = o.subs[q];
            u.key = (int)r.U(nkeys);
            u.act = !wr ? 'r' : r.P(50) ? 's' : r.P(50) ? 'a' : r.P(50) ? 'd' : 'r';
            u.val = u.act == 's' ? val(i * 10 + q) : "";
            u.has = false;
            pairs.emplace_back(keys[u.key], [&, q](std::string_view kk, std::string_view vv) -> std::string_view {
              Sub& u = o.subs[q];
              if (calls++ != q || kk != keys[u.key]) fail("ProcessMulti calls its processors in another order or with another key");
              u.has = vv.data() != DBM::RecordProcessor::NOOP.data();
              if (u.has) u.old = std::string(vv);
              if (pause) { if (q & 1) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds(15)); }
              if (u.act == 'r') return DBM::RecordProcessor::NOOP;
              if (u.act == 'd') return DBM::RecordProcessor::REMOVE;
              if (u.act == 'a') u.val = Fmt("%d", atoi(u.old.c_str()) + 1);
              return u.val;
            });
          }
          o.t0 = NowNs();
          o.code = d->ProcessMulti(pairs, wr).GetCode();
          o.t1 = NowNs();
          if (calls != m) fail(Fmt("ProcessMulti called %d of %d processors", calls, m));
        } else if (x < 60) {
          o.kind = MOp::CEM;
          const int m = (int)r.U(4), w = (int)r.R(m == 0 ? 1 : 0, 4);
          for (int q = 0; q < m; q++) {
            Sub u{(int)r.U(nkeys), 'n', 0, false, "", ""};
            std::string cur;
            const bool f = d->Get(keys[u.key], &cur) == Status::SUCCESS;
            if (f && r.P(85)) { u.act = 'e'; u.val = cur; }
            else if (r.P(30)) u.act = '*';
            if (!f && r.P(90)) u.act = 'n';
            o.subs.push_back(u);
          }
          for (int q = 0; q < w; q++) {
            Sub u{(int)r.U(nkeys), r.P(80) ? 's' : 'd', 0, false, "", ""};
            if (u.act == 's') u.val = val(i * 10 + q);
            o.desired.push_back(u);
          }
          std::vector<std::pair<std::string_view, std::string_view>> ex, de;
          for (auto& u : o.subs) ex.emplace_back(keys[u.key], u.act == 'n' ? std::string_view() : u.act == '*' ? DBM::ANY_DATA : std::string_view(u.val));
          for (auto& u : o.desired) de.emplace_back(keys[u.key], u.act == 'd' ? std::string_view() : std::string_view(u.val));
          o.t0 = NowNs();
          o.code = d->CompareExchangeMulti(ex, de).GetCode();
          o.t1 = NowNs();
        } else if (x < 75) {
          o.kind = MOp::REKEY;
          o.k1 = (int)r.U(nkeys); o.k2 = (int)r.U(nkeys);
          o.overwrite = r.P(50); o.copying = r.P(30);
          if (style == 2) { o.overwrite = false; o.copying = false; }
          o.t0 = NowNs();
          o.code = d->Rekey(keys[o.k1], keys[o.k2], o.overwrite, o.copying, &o.val).GetCode();
          o.t1 = NowNs();
        } else if (x < 82 && each_atomic) {
          o.kind = MOp::EACH;
          for (int q = 0; q < nkeys; q++) o.subs.push_back({q, 'r', 0, false, "", ""});
          const bool wr = r.P(30), pause = r.P(30);
          o.t0 = NowNs();
          o.code = d->ProcessEach([&](std::string_view k, std::string_view v) -> std::string_view {
            if (k.data() == DBM::RecordProcessor::NOOP.data()) return DBM::RecordProcessor::NOOP;
            auto f = kid.find(std::string(k));
            if (f == kid.end()) return DBM::RecordProcessor::NOOP;
            Sub& u = o.subs[f->second];
            if (u.has) fail("ProcessEach visits a record twice");
            u.has = true; u.old = std::string(v);
            if (pause) std::this_thread::sleep_for(std::chrono::microseconds(15));
            return DBM::RecordProcessor::NOOP;
          }, wr).GetCode();
          o.t1 = NowNs();
        } else {
          o.kind = x < 92 ? MOp::GET : x < 97 ? MOp::SET : MOp::REMOVE;
          o.k1 = (int)r.U(nkeys);
          if (o.kind == MOp::SET) o.val = val(i);
          o.t0 = NowNs();
          if (o.kind == MOp::GET) o.code = d->Get(keys[o.k1], &o.val).GetCode();
          else if (o.kind == MOp::SET) o.code = d->Set(keys[o.k1], o.val).GetCode();
          else o.code = d->Remove(keys[o.k1]).GetCode();
          o.t1 = NowNs();
        }
        logs[t].push_back(std::move(o));
        if (r.P(3)) std::this_thread::yield();
      }
      running--;
    });
  }
  if (disturb >= 2) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, seed] {
      Rng r(seed);
      int left = 200;
      std::set<std::string> mine;
      while (running > 0 && errs == 0 && left-- > 0) {
        std::this_thread::sleep_for(std::chrono::microseconds(r.U(500)));
        Status st(Status::SUCCESS);
        if (disturb == 2) st = r.P(50) ? a.Rebuild(d.get(), r) : d->Synchronize(false);
        else if (r.P(60)) { std::string k = Fmt("k%03d-%d", (int)r.U(50), (int)r.U(100)); st = d->Set(k, std::string(r.U(50), 'z')); mine.insert(k); }
        else if (!mine.empty()) { st = d->Remove(*mine.begin()); mine.erase(mine.begin()); }
        if (st != Status::SUCCESS) fail("disturber: " + SS(st));
      }
      for (auto& k : mine) d->Remove(k);
    });
  }
  for (auto& x : th) x.join();
  if (errs) c.Fail("status", err);
  std::vector<MOp> all;
  for (auto& l : logs) for (auto& o : l) all.push_back(o);
  int64_t present = fill, kinds[7] = {0}, failed = 0, overlaps = 0;
  for (auto& o : all) { kinds[o.kind]++; if (o.code != 0) failed++; }
  State fin(nkeys);
  for (int k = 0; k < nkeys; k++) {
    MOp o;
    o.kind = MOp::GET; o.thread = 99; o.k1 = k;
    o.t0 = NowNs();
    o.code = d->Get(keys[k], &o.val).GetCode();
    o.t1 = NowNs();
    if (o.code == Status::SUCCESS) { present++; fin[k] = o.val; }
    all.push_back(o);
  }
  LinzAny<MOp, State> l;
  std::string why;
  const int rv = l.Check(all, init, Apply, HashState, Str, &why, 600000);
  if (rv == 0) c.Fail("history", why);
  if (rv < 0) c.Stat("undecided"); else c.Stat("histories");
  std::sort(all.begin(), all.end(), [](const MOp& x, const MOp& y) { return x.t0 < y.t0; });
  int64_t maxend = 0;
  uint64_t ord = 0;
  for (auto& o : all) { if (o.t0 < maxend) overlaps++; maxend = std::max(maxend, o.t1); ord = Mix(ord ^ (uint64_t)o.thread * 31 ^ (uint64_t)o.kind); }
  c.Eval(ord);
  c.Stat("operations", (int64_t)all.size());
  c.Stat("overlapping_operations", overlaps);
  c.Stat("process_multi", kinds[0]); c.Stat("compare_exchange_multi", kinds[1]); c.Stat("rekey", kinds[2]); c.Stat("process_each", kinds[3]);
  c.Stat("failed_conditions", failed);
  c.Stat("search_nodes", l.nodes);
  VCHECK(c, d->CountSimple() == present, "count", "Count %lld, present %lld", (long long)d->CountSimple(), (long long)present);
  if (a.bound) {
    s = d->Close();
    VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
    auto d2 = a.New();
    s = a.Open(d2.get(), g.P(50));
    VCHECK(c, s == Status::SUCCESS, "reopen", "%s", SS(s).c_str());
    for (int k = 0; k < nkeys; k++) {
      std::string v;
      Status st = d2->Get(keys[k], &v);
      VCHECK(c, fin[k] ? st == Status::SUCCESS && v == *fin[k] : st == Status::NOT_FOUND_ERROR, "reopen:value", "after reopening %s is %s", Show(keys[k]).c_str(), st == Status::SUCCESS ? Show(v).c_str() : SS(st).c_str());
    }
    d2->Close();
  }
  if (overlaps > 0) c.nontrivial = true;
  c.Reach(a.inner + (a.cls != a.inner ? "/" + a.cls : "") + Fmt(" disturb=%d", disturb));
}

int main(int argc, char** argv) { return Main(argc, argv, "C08", Case); }
