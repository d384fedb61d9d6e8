// C07: concurrent single-record operations are linearizable in every database class.
#include "anydb.h"
#include "linz.h"
#include "wrapfile.h"
using namespace vh;
using namespace tkrzw;

static bool Apply(const KOp& o, Linz::St* s) {
  const int OK = Status::SUCCESS, NF = Status::NOT_FOUND_ERROR, DUP = Status::DUPLICATION_ERROR, INF = Status::INFEASIBLE_ERROR;
  auto old_is = [&] { return o.has == s->present && (!o.has || o.out == s->v); };
  switch (o.kind) {
    case KOp::GET: case KOp::ITGET:
      return o.code == (s->present ? OK : NF) && (!s->present || o.out == s->v);
    case KOp::SET:
      if (o.code != OK || !old_is()) return false;
      s->present = true; s->v = o.arg; return true;
    case KOp::SETNX:
      if (s->present) return o.code == DUP && o.out == s->v;
      if (o.code != OK) return false;
      s->present = true; s->v = o.arg; return true;
    case KOp::REMOVE:
      if (o.code != (s->present ? OK : NF)) return false;
      if (s->present && o.out != s->v) return false;
      s->present = false; s->v.clear(); return true;
    case KOp::APPEND:
      if (o.code != OK) return false;
      s->v = s->present ? s->v + o.exp + o.arg : o.arg;
      s->present = true; return true;
    case KOp::CAS: {
      const bool met = o.exp_null ? !s->present : s->present && (o.exp_any || s->v == o.exp);
      if (o.code != (met ? OK : INF)) return false;
      if (!old_is()) return false;
      if (!met || o.arg_any) return true;
      if (o.arg_null) { s->present = false; s->v.clear(); }
      else { s->present = true; s->v = o.arg; }
      return true;
    }
    case KOp::INC: {
      if (o.code != OK) return false;
      int64_t cur = o.inc_init;
      if (s->present) { cur = 0; for (unsigned char ch : s->v) cur = (int64_t)((uint64_t)cur << 8 | ch); }
      cur = (int64_t)((uint64_t)cur + (uint64_t)o.inc);
      if (o.num != cur) return false;
      s->present = true; s->v = BE8(cur); return true;
    }
    case KOp::PROC:
      if (o.code != OK || !old_is()) return false;
      if (o.arg_any) return true;
      if (o.arg_null) { s->present = false; s->v.clear(); return true; }
      s->present = true; s->v = o.arg; return true;
  }
  return false;
}

static void Case(Ctx& c, Rng& g, int64_t n) {
  AnyOpt ao;
  ao.tiny_trees = true;
  ao.small = true;
  ao.orders = false;
  if (g.P(60)) ao.classes = {"HashDBM", "TreeDBM", "TreeDBM", "BabyDBM"};
  AnyDB a = AnyDB::Make(g, c.dir, ao);
  const int nthreads = (int)g.R(2, 6), nkeys = (int)g.Pick({1, 1, 2, 3, 6}), nops = (int)g.Pick({20, 60, 150});
  const bool delay = (a.cls == "HashDBM" || a.cls == "TreeDBM") && g.P(60);
  std::shared_ptr<DelayHub> hub;
  if (delay) {
    hub = std::make_shared<DelayHub>(g.Next(), (int)g.Pick({3, 10, 30}), (int)g.Pick({5, 60, 200}));
    a.fc.block = 0; a.fc.options = 0;
    FileCfg fc = a.fc;
    a.file_maker = [hub, fc] { return std::make_unique<WrapFile>(hub, fc); };
  }
  const int disturb = (int)g.U(6);  // 0,1 none 2 sync 3 rebuild 4 scans 5 all
  const int churn = (int)g.Pick({0, 0, 1, 2});
  const int style = (int)g.U(4);  // 0 mixed, 1 counters, 2 registers, 3 appends
  Describe(c, Fmt("threads=%d keys=%d ops=%d delay=%d disturb=%d churn=%d style=%d ", nthreads, nkeys, nops, delay, disturb, churn, style) + a.desc);
  c.Sig(c.desc);
  auto d = a.New();
  Status s = a.Open(d.get());
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  std::vector<std::string> keys;
  for (int i = 0; i < nkeys; i++) keys.push_back(Fmt("k%03d", i * 7) + (g.P(10) ? std::string(g.U(200), 'x') : ""));
  const int fill = (int)g.Pick({0, 0, 10, 200});
  for (int i = 0; i < fill; i++) { s = d->Set(Fmt("k%03d+%d", (int)g.U(50), i), g.Bytes(g.U(40))); VCHECK(c, s == Status::SUCCESS, "set", "%s", SS(s).c_str()); }
  std::vector<std::vector<KOp>> logs(nthreads);
  std::vector<std::vector<int>> kix(nthreads);
  std::atomic<int> running{nthreads}, errs{0};
  std::mutex emu;
  std::string err;
  auto fail = [&](const std::string& m) { std::lock_guard<std::mutex> l(emu); if (err.empty()) err = m; errs++; };
  std::vector<std::thread> th;
  for (int t = 0; t < nthreads; t++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, t, seed] {
      Rng r(seed);
      auto it = d->MakeIterator();
      for (int i = 0; i < nops && errs == 0; i++) {
        const int kx = (int)r.U(nkeys);
        const std::string& k = keys[kx];
        KOp o;
        o.thread = t;
        const int x = (int)r.U(100);
        const bool counter = style == 1 || (style == 0 && kx % 3 == 1);
        const int szc = (int)r.U(10);
        std::string val = Fmt("%d.%d.", t, i) + std::string(szc < 6 ? r.U(10) : szc < 9 ? r.U(60) : r.U(600), 'a' + t);
        if (counter) o.kind = x < 70 ? KOp::INC : x < 90 ? KOp::GET : KOp::REMOVE;
        else if (style == 3) o.kind = x < 55 ? KOp::APPEND : x < 75 ? KOp::GET : x < 85 ? KOp::REMOVE : x < 92 ? KOp::PROC : KOp::CAS;
        else o.kind = x < 20 ? KOp::GET : x < 38 ? KOp::SET : x < 48 ? KOp::SETNX : x < 62 ? KOp::REMOVE : x < 68 ? KOp::APPEND : x < 80 ? KOp::CAS : x < 92 ? KOp::PROC : KOp::ITGET;
        o.arg = val;
        bool keep = true;
        std::string last_seen;
        switch (o.kind) {
          case KOp::GET: {
            o.t0 = NowNs();
            o.code = d->Get(k, &o.out).GetCode();
            o.t1 = NowNs();
            o.has = o.code == Status::SUCCESS;
            break;
          }
          case KOp::ITGET: {
            std::string gk;
            o.t0 = NowNs();
            Status st = it->Jump(k);
            if (st == Status::SUCCESS) st = it->Get(&gk, &o.out);
            o.t1 = NowNs();
            o.code = st.GetCode();
            if (st == Status::SUCCESS && gk != k) keep = false;
            if (st == Status::NOT_FOUND_ERROR) keep = false;
            o.has = o.code == Status::SUCCESS;
            break;
          }
          case KOp::SET: case KOp::SETNX: {
            std::string old = "\x01none\x01";
            o.t0 = NowNs();
            o.code = d->Set(k, o.arg, o.kind == KOp::SET, &old).GetCode();
            o.t1 = NowNs();
            o.has = old != "\x01none\x01";
            if (o.has) o.out = old;
            break;
          }
          case KOp::REMOVE: {
            o.t0 = NowNs();
            o.code = d->Remove(k, &o.out).GetCode();
            o.t1 = NowNs();
            o.has = o.code == Status::SUCCESS;
            break;
          }
          case KOp::APPEND: {
            o.exp = r.P(50) ? "" : "|";
            o.arg = Fmt("%d.%d", t, i);
            o.t0 = NowNs();
            o.code = d->Append(k, o.arg, o.exp).GetCode();
            o.t1 = NowNs();
            break;
          }
          case KOp::CAS: {
            std::string cur;
            const bool cf = d->Get(k, &cur) == Status::SUCCESS;
            const int m = (int)r.U(10);
            std::string_view ex, de;
            if (m < 5 && cf) { o.exp = cur; ex = o.exp; }
            else if (m < 7) { o.exp_any = true; ex = DBM::ANY_DATA; }
            else { o.exp_null = true; }
            const int m2 = (int)r.U(10);
            if (m2 < 2) o.arg_null = true;
            else if (m2 < 3) { o.arg_any = true; de = DBM::ANY_DATA; }
            else de = o.arg;
            bool found = false;
            o.t0 = NowNs();
            o.code = d->CompareExchange(k, ex, de, &o.out, &found).GetCode();
            o.t1 = NowNs();
            o.has = found;
            break;
          }
          case KOp::INC: {
            o.inc = r.R(-3, 7);
            o.inc_init = r.P(70) ? 0 : 100;
            o.t0 = NowNs();
            o.code = d->Increment(k, o.inc, &o.num, o.inc_init).GetCode();
            o.t1 = NowNs();
            break;
          }
          case KOp::PROC: {
            const int m = (int)r.U(10);
            const bool wr = m > 0;
            if (m < 2) o.arg_any = true;
            else if (m < 4) o.arg_null = true;
            const bool pause = r.P(20);
            const int how = (int)r.U(2);
            int calls = 0;
            DBM::RecordLambdaType fn = [&](std::string_view kk, std::string_view vv) -> std::string_view {
              calls++;
              if (kk != k) calls += 100;
              o.has = vv.data() != DBM::RecordProcessor::NOOP.data();
              if (o.has) o.out = std::string(vv);
              if (pause) { if (how) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds(20)); }
              return o.arg_any ? DBM::RecordProcessor::NOOP : o.arg_null ? DBM::RecordProcessor::REMOVE : std::string_view(o.arg);
            };
            o.t0 = NowNs();
            o.code = d->Process(k, fn, wr).GetCode();
            o.t1 = NowNs();
            if (calls != 1) fail(Fmt("Process called its processor %d times", calls));
            break;
          }
        }
        if (keep) { logs[t].push_back(std::move(o)); kix[t].push_back(kx); }
        if (r.P(3)) std::this_thread::yield();
      }
      running--;
    });
  }
  for (int q = 0; q < churn; q++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, q, seed] {
      Rng r(seed);
      std::set<std::string> mine;
      int left = 400;
      while (running > 0 && errs == 0 && left-- > 0) {
        std::string k = Fmt("k%03d-%d-%d", (int)r.U(50), q, (int)r.U(100));
        Status st(Status::SUCCESS);
        if (r.P(60)) { st = d->Set(k, std::string(r.U(50), 'z')); mine.insert(k); }
        else if (!mine.empty()) { st = d->Remove(*mine.begin()); mine.erase(mine.begin()); }
        if (st != Status::SUCCESS) fail("churn: " + SS(st));
        // Shared locks of this database can starve exclusive ones.
        std::this_thread::sleep_for(std::chrono::microseconds(r.U(300)));
      }
      for (auto& k : mine) if (d->Remove(k) != Status::SUCCESS) fail("churn: final Remove of " + k);
    });
  }
  std::atomic<int> rebuilds{0}, scans{0}, syncs{0};
  if (disturb >= 2) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, seed] {
      Rng r(seed);
      int left = 300;
      while (running > 0 && errs == 0 && left-- > 0) {
        std::this_thread::sleep_for(std::chrono::microseconds(r.U(1000)));
        Status st(Status::SUCCESS);
        const int k = disturb == 5 ? (int)r.R(2, 4) : disturb;
        if (k == 2) { st = d->Synchronize(false); syncs++; }
        else if (k == 3) { st = a.Rebuild(d.get(), r); rebuilds++; }
        else {
          scans++;
          if (r.P(50)) {
            auto it = d->MakeIterator();
            it->First();
            std::string k2, v2;
            int lim = 500;
            while (lim-- > 0 && it->Step(&k2, &v2) == Status::SUCCESS) {}
          } else st = d->ProcessEach([](std::string_view, std::string_view) { return DBM::RecordProcessor::NOOP; }, r.P(30));
          int64_t cnt = 0;
          if (d->Count(&cnt) != Status::SUCCESS || cnt < 0) fail("Count while running");
        }
        if (st != Status::SUCCESS) fail("disturber: " + SS(st));
      }
    });
  }
  for (auto& x : th) x.join();
  if (errs) c.Fail("status", err);
  std::vector<std::vector<KOp>> per(nkeys);
  for (int t = 0; t < nthreads; t++) for (size_t i = 0; i < logs[t].size(); i++) per[kix[t][i]].push_back(logs[t][i]);
  int64_t present = fill;
  std::map<std::string, std::string> fin;
  for (int k = 0; k < nkeys; k++) {
    KOp o;
    o.thread = 99;
    o.t0 = NowNs();
    o.code = d->Get(keys[k], &o.out).GetCode();
    o.t1 = NowNs();
    o.has = o.code == Status::SUCCESS;
    if (o.has) { present++; fin[keys[k]] = o.out; }
    per[k].push_back(o);
  }
  int64_t overlaps = 0;
  for (int k = 0; k < nkeys; k++) {
    for (auto& o : per[k]) if (o.code != Status::SUCCESS && o.code != Status::NOT_FOUND_ERROR && o.code != Status::DUPLICATION_ERROR && o.code != Status::INFEASIBLE_ERROR)
      c.Fail("status", Fmt("an operation ended with the status %d: ", o.code) + Linz::Str(o, o.t0));
    Linz l;
    std::string why;
    const int rv = l.Check(per[k], Linz::St(), Apply, &why);
    if (rv == 0) c.Fail("history", Fmt("key %s: ", Show(keys[k], 8).c_str()) + why);
    if (rv < 0) c.Stat("undecided");
    c.Stat("histories");
    c.Stat("search_nodes", l.nodes);
    c.Stat("operations", (int64_t)per[k].size());
    std::sort(per[k].begin(), per[k].end(), [](const KOp& x, const KOp& y) { return x.t0 < y.t0; });
    int64_t maxend = 0;
    uint64_t ord = 0;
    for (auto& o : per[k]) { if (o.t0 < maxend) overlaps++; maxend = std::max(maxend, o.t1); ord = Mix(ord ^ (uint64_t)o.thread * 31 ^ (uint64_t)o.kind); }
    c.Eval(ord);
  }
  c.Stat("overlapping_operations", overlaps);
  c.Stat("rebuilds", rebuilds); c.Stat("scans", scans); c.Stat("syncs", syncs);
  int64_t cnt = -1;
  s = d->Count(&cnt);
  VCHECK(c, s == Status::SUCCESS && cnt == present, "count", "Count %lld, present %lld (%s)", (long long)cnt, (long long)present, SS(s).c_str());
  int64_t walked = 0;
  s = d->ProcessEach([&](std::string_view k, std::string_view v) -> std::string_view { if (k.data() != nullptr && v.data() != DBM::RecordProcessor::NOOP.data()) walked++; return DBM::RecordProcessor::NOOP; }, false);
  VCHECK(c, walked == present, "walk", "ProcessEach visits %lld, present %lld", (long long)walked, (long long)present);
  if (a.bound) {
    s = d->Close();
    VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
    auto d2 = a.New();
    s = a.Open(d2.get(), g.P(50));
    VCHECK(c, s == Status::SUCCESS, "reopen", "%s", SS(s).c_str());
    for (auto& k : keys) {
      std::string v;
      Status st = d2->Get(k, &v);
      auto f = fin.find(k);
      VCHECK(c, f == fin.end() ? st == Status::NOT_FOUND_ERROR : st == Status::SUCCESS && v == f->second, "reopen:value", "after reopening %s is %s", Show(k).c_str(), st == Status::SUCCESS ? Show(v).c_str() : SS(st).c_str());
    }
    VCHECK(c, d2->CountSimple() == present, "reopen:count", "Count %lld after reopening, present %lld", (long long)d2->CountSimple(), (long long)present);
    d2->Close();
  }
  if (overlaps > 0) c.nontrivial = true;
  c.Reach(a.inner + (a.cls != a.inner ? "/" + a.cls : "") + Fmt(" disturb=%d", disturb));
}

int main(int argc, char** argv) { return Main(argc, argv, "C07", Case); }
