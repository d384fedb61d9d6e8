// C15: replaying the update log reproduces the database.
#include "anydb.h"
#include "wrapfile.h"
#include "tkrzw_dbm_ulog.h"
#include "tkrzw_message_queue.h"
using namespace vh;
using namespace tkrzw;

struct Ev { char op; std::string k, v; };

// Records the log in the order in which the calls arrive; may dawdle first, so that calls made outside the record's lock swap.
class Capture : public DBM::UpdateLogger {
 public:
  std::mutex mu;
  std::vector<Ev> evs;
  int dawdle = 0;
  std::atomic<int> syncs{0}, hard_syncs{0};
  std::atomic<uint64_t> rnd{1};
  void Delay() {
    if (!dawdle) return;
    const uint64_t r = Mix(rnd.fetch_add(0x9e3779b97f4a7c15ull)) % 100;
    if ((int)r < dawdle) { if (r & 1) std::this_thread::yield(); else usleep(1 + r % 40); }
  }
  Status WriteSet(std::string_view k, std::string_view v) override {
    std::string ks(k), vs(v);
    Delay();
    std::lock_guard<std::mutex> l(mu);
    evs.push_back({'S', ks, vs});
    return Status(Status::SUCCESS);
  }
  Status WriteRemove(std::string_view k) override {
    std::string ks(k);
    Delay();
    std::lock_guard<std::mutex> l(mu);
    evs.push_back({'R', ks, ""});
    return Status(Status::SUCCESS);
  }
  Status WriteClear() override { Delay(); std::lock_guard<std::mutex> l(mu); evs.push_back({'C', "", ""}); return Status(Status::SUCCESS); }
  Status Synchronize(bool hard) override { syncs++; if (hard) hard_syncs++; return Status(Status::SUCCESS); }
  std::vector<Ev> Take() { std::lock_guard<std::mutex> l(mu); std::vector<Ev> r; r.swap(evs); return r; }
};

static std::string EvStr(const Ev& e) { return e.op == 'C' ? std::string("C") : std::string(1, e.op) + "(" + Show(e.k, 16) + (e.op == 'S' ? "," + Show(e.v, 16) : "") + ")"; }

// Applies an event to the replica.  Gives false for a removal of something which is not there.
static bool Replay(Model& r, const Ev& e) {
  if (e.op == 'S') { r.Set(e.k, e.v); return true; }
  if (e.op == 'R') return r.Remove(e.k);
  r.m.clear();
  return true;
}

static Content Dump(Ctx& c, DBM* d) {
  Content r;
  auto it = d->MakeIterator();
  Status s = it->First();
  VCHECK(c, s == Status::SUCCESS || s == Status::NOT_FOUND_ERROR, "dump", "First: %s", SS(s).c_str());
  std::string k, v;
  while (true) {
    s = it->Get(&k, &v);
    if (s == Status::NOT_FOUND_ERROR) break;
    VCHECK(c, s == Status::SUCCESS, "dump", "Get: %s", SS(s).c_str());
    VCHECK(c, r.emplace(k, v).second, "dump", "record %s twice", Show(k).c_str());
    s = it->Next();
    VCHECK(c, s == Status::SUCCESS, "dump", "Next: %s", SS(s).c_str());
  }
  VCHECK(c, d->CountSimple() == (int64_t)r.size(), "dump", "count %lld, records %zu", (long long)d->CountSimple(), r.size());
  return r;
}

static AnyOpt Opts(Rng& g) {
  AnyOpt ao;
  ao.tiny_trees = g.P(60);
  ao.small = true;
  if (g.P(40)) ao.classes = {"HashDBM", "TreeDBM", "TreeDBM", "BabyDBM", "TinyDBM", "CacheDBM"};
  return ao;
}

// One thread: after every call the replica equals the model.
static void Sequential(Ctx& c, Rng& g) {
  AnyDB a = AnyDB::Make(g, c.dir, Opts(g));
  Capture log;
  // A live mirror kept by a logger of the library, checked at the end.
  const int mirror_kind = (int)g.U(3);  // 0 none, 1 a database of the same class, 2 strings
  Describe(c, Fmt("sequential mirror=%d ", mirror_kind) + a.desc);
  c.Sig(c.desc);
  AnyDB b = a;
  b.path = a.path;
  b.path.replace(b.path.rfind("casket"), 6, "mirror");
  std::unique_ptr<DBM> d = a.New(), md = b.New();
  Status s = a.Open(d.get());
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  s = b.Open(md.get());
  VCHECK(c, s == Status::SUCCESS, "open", "mirror: %s", SS(s).c_str());
  Model m(a.ordered, a.order->ref), replica(a.ordered, a.order->ref);
  KeyGen kg = KeyGen::Make(g, a.order, (int)g.Pick({5, 20, 100, 400}));
  ValGen vg(g);
  // Starting contents which the log doesn't know of.
  const int fill = (int)g.Pick({0, 0, 20, 200});
  for (int i = 0; i < fill; i++) {
    const std::string k = kg(g), v = vg(g);
    s = d->Set(k, v);
    VCHECK(c, s == Status::SUCCESS, "set", "%s", SS(s).c_str());
    m.Set(k, v); replica.Set(k, v);
    s = md->Set(k, v);
    VCHECK(c, s == Status::SUCCESS, "set", "mirror: %s", SS(s).c_str());
  }
  const std::string delim = "\x01" "<|>" + g.Bytes(8) + "\x02";
  DBMUpdateLoggerStrDeque strs(delim);
  DBMUpdateLoggerDBM dbmlog(md.get());
  struct Tee : DBM::UpdateLogger {
    std::vector<DBM::UpdateLogger*> to;
    Status All(const std::function<Status(DBM::UpdateLogger*)>& f) { Status s; for (auto* t : to) s |= f(t); return s; }
    Status WriteSet(std::string_view k, std::string_view v) override { return All([&](DBM::UpdateLogger* t) { return t->WriteSet(k, v); }); }
    Status WriteRemove(std::string_view k) override { return All([&](DBM::UpdateLogger* t) { return t->WriteRemove(k); }); }
    Status WriteClear() override { return All([&](DBM::UpdateLogger* t) { return t->WriteClear(); }); }
    Status Synchronize(bool h) override { return All([&](DBM::UpdateLogger* t) { return t->Synchronize(h); }); }
  } tee;
  tee.to.push_back(&log);
  if (mirror_kind == 1) tee.to.push_back(&dbmlog);
  if (mirror_kind == 2) tee.to.push_back(&strs);
  d->SetUpdateLogger(&tee);
  VCHECK(c, d->GetUpdateLogger() == &tee || a.cls == "ShardDBM", "getlogger", "another logger is reported");
  int64_t nev = 0, quiet = 0;
  size_t seen_trace = 0;
  ScriptOptions o;
  o.nops = (int)g.Pick({30, 100, 250});
  o.opened = a.bound;
  o.each_order = a.cls != "ShardDBM";
  o.push_last = a.order->name == "lexical" || !a.order->numeric;
  o.do_rebuild = [&](Rng& r, std::string* what) { return a.Rebuild(d.get(), r, what); };
  o.reopen = a.bound;
  o.do_reopen = [&](Rng& r, std::string*) -> DBM* {
    Status st = d->Close();
    VCHECK(c, st == Status::SUCCESS, "close", "%s", SS(st).c_str());
    const bool fresh = r.P(50);
    if (fresh) d = a.New();
    st = a.Open(d.get());
    VCHECK(c, st == Status::SUCCESS, "reopen", "%s", SS(st).c_str());
    d->SetUpdateLogger(&tee);
    return d.get();
  };
  o.on_step = [&](Rng& r) {
    auto evs = log.Take();
    std::string last = c.trace.empty() ? "" : c.trace.back();
    const bool moved = c.trace_base + c.trace.size() != seen_trace;
    seen_trace = c.trace_base + c.trace.size();
    auto begins = [&](const char* p) { return last.compare(0, strlen(p), p) == 0; };
    const bool readonly = moved && (begins("Get") || begins("Count") || begins("Misc") || begins("Rebuild") || begins("Reopen") || begins("Synchronize") ||
                          (begins("Process(") && last.size() > 3 && (last.compare(last.size() - 3, 3, ",0)") == 0 || last.compare(last.size() - 5, 5, ",0,1)") == 0)) || last == "ProcessEach(0)");
    if (readonly) {
      quiet++;
      if (!evs.empty()) c.Fail("logged-without-effect", Fmt("%s is logged as %s", last.c_str(), EvStr(evs[0]).c_str()));
    }
    int clears = 0;
    for (auto& e : evs) {
      nev++;
      if (!Replay(replica, e)) c.Fail("logged-without-effect", Fmt("%s logs the removal of a record which isn't there: %s", last.c_str(), EvStr(e).c_str()));
      if (e.op == 'C') clears++;
      c.Sig((uint64_t)e.op * 31 + e.k.size() * 7 + e.v.size());
    }
    if (begins("Clear") && moved && clears != 1) c.Fail("clear-log", Fmt("Clear is logged %d times", clears));
    if (replica.m.size() != m.m.size()) c.Fail("replay", Fmt("after %s: %zu records by replaying, %zu in the database", last.c_str(), replica.m.size(), m.m.size()));
    for (auto& e : evs) if (e.op != 'C') {
      auto* x = replica.Get(e.k); auto* y = m.Get(e.k);
      if (!x != !y || (x && *x != *y)) c.Fail("replay", Fmt("after %s: record %s differs (%s)", last.c_str(), Show(e.k).c_str(), EvStr(e).c_str()));
    }
    if (r.P(10) || m.m.size() < 30) { auto df = DiffContent(ToContent(m), ToContent(replica)); if (!df.empty()) c.Fail("replay", "after " + last + ": " + df); }
  };
  Script sc(c, g, d.get(), m, kg, vg, o);
  sc.Run();
  auto df = DiffContent(ToContent(m), ToContent(replica));
  if (!df.empty()) c.Fail("replay", "at the end: " + df);
  // Synchronization reaches the logger.
  if (a.bound) {
    const int n0 = log.syncs, h0 = log.hard_syncs;
    const bool hard = g.P(30);
    s = d->Synchronize(hard);
    VCHECK(c, s == Status::SUCCESS, "sync", "%s", SS(s).c_str());
    VCHECK(c, log.syncs > n0, "sync-logger", "Synchronize doesn't synchronize the logger");
    VCHECK(c, (log.hard_syncs > h0) == hard, "sync-logger", "hardness");
  }
  d->SetUpdateLogger(nullptr);
  s = d->Set(kg(g), "unlogged");
  VCHECK(c, s == Status::SUCCESS, "set", "%s", SS(s).c_str());
  VCHECK(c, log.Take().empty(), "detached", "a detached logger is called");
  if (mirror_kind == 1) {
    const Content x = Dump(c, md.get());
    df = DiffContent(ToContent(m), x);
    if (!df.empty()) c.Fail("mirror", "DBMUpdateLoggerDBM: " + df);
  }
  if (mirror_kind == 2) {
    VCHECK(c, strs.GetSize() == nev, "strdeque", "%lld lines for %lld events", (long long)strs.GetSize(), (long long)nev);
    std::string t;
    Model sr(a.ordered, a.order->ref);
    // The starting contents can't be told from the log: only keys it mentions are judged.
    std::map<std::string, bool> touched;
    bool cleared = false;
    std::deque<std::string> lines;
    while (strs.PopFront(&t)) lines.push_back(t);
    for (auto& l : lines) {
      if (l == "CLEAR") { sr.m.clear(); cleared = true; touched.clear(); continue; }
      const size_t p = l.find(delim);
      VCHECK(c, p != std::string::npos, "strdeque", "line %s", Show(l).c_str());
      const std::string op = l.substr(0, p), rest = l.substr(p + delim.size());
      if (op == "REMOVE") { sr.Remove(rest); touched[rest] = true; continue; }
      VCHECK(c, op == "SET", "strdeque", "line %s", Show(l).c_str());
      const size_t q = rest.find(delim);
      VCHECK(c, q != std::string::npos, "strdeque", "line %s", Show(l).c_str());
      sr.Set(rest.substr(0, q), rest.substr(q + delim.size()));
      touched[rest.substr(0, q)] = true;
    }
    for (auto& kv : touched) {
      auto* x = sr.Get(kv.first); auto* y = m.Get(kv.first);
      if (!x != !y || (x && *x != *y)) c.Fail("strdeque", "record " + Show(kv.first));
    }
    if (cleared) { df = DiffContent(ToContent(m), ToContent(sr)); if (!df.empty()) c.Fail("strdeque", df); }
  }
  c.Stat("events_seq", nev);
  c.Stat("ineffective_calls", quiet);
  c.Reach("seq:" + a.cls);
  if (nev > 3) c.nontrivial = true;
  a.Close(d.get());
  b.Close(md.get());
}

// Many threads; at the end of each round the replica made from the log equals the database.
static void Concurrent(Ctx& c, Rng& g) {
  AnyOpt ao = Opts(g);
  ao.orders = false;
  AnyDB a = AnyDB::Make(g, c.dir, ao);
  const bool shard = a.cls == "ShardDBM";
  const int nthreads = (int)g.R(2, 6), nkeys = (int)g.Pick({1, 2, 3, 8, 40, 200}), nops = (int)g.Pick({15, 40, 100}), rounds = (int)g.R(1, 3);
  const int style = (int)g.U(3);  // 0 single-record, 1 everything, 2 iterators and scans
  const int kind = (int)g.Pick({0, 0, 0, 1, 2});    // capture, live mirror, message queue
  const bool clears = !shard && g.P(25);
  const bool rebuilds = (a.inner == "HashDBM" || a.inner == "TreeDBM") && g.P(30);
  Capture log;
  log.dawdle = (int)g.Pick({0, 20, 60});
  log.rnd = g.Next();
  std::shared_ptr<DelayHub> hub;
  if ((a.cls == "HashDBM" || a.cls == "TreeDBM") && g.P(40)) {
    hub = std::make_shared<DelayHub>(g.Next(), (int)g.Pick({3, 10, 30}), (int)g.Pick({5, 60, 200}));
    a.fc.block = 0; a.fc.options = 0;
    FileCfg fc = a.fc;
    a.file_maker = [hub, fc] { return std::make_unique<WrapFile>(hub, fc); };
  }
  Describe(c, Fmt("concurrent threads=%d keys=%d ops=%d rounds=%d style=%d kind=%d clears=%d rebuilds=%d dawdle=%d hub=%d ", nthreads, nkeys, nops, rounds, style, kind, clears, rebuilds, log.dawdle, hub ? 1 : 0) + a.desc);
  c.Sig(c.desc);
  AnyDB b = a;
  b.file_maker = nullptr;
  b.path.replace(b.path.rfind("casket"), 6, "mirror");
  auto d = a.New(), md = b.New();
  Status s = a.Open(d.get());
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  MessageQueue mq;
  std::unique_ptr<DBM::UpdateLogger> lib;
  if (kind == 1) {
    s = b.Open(md.get());
    VCHECK(c, s == Status::SUCCESS, "open", "mirror: %s", SS(s).c_str());
    lib = std::make_unique<DBMUpdateLoggerDBM>(md.get());
  }
  if (kind == 2) {
    s = mq.Open(c.Path("ulog"), g.Pick<int64_t>({1, 500, 10000, 1 << 30}));
    VCHECK(c, s == Status::SUCCESS, "open", "queue: %s", SS(s).c_str());
    lib = std::make_unique<DBMUpdateLoggerMQ>(&mq, 7, 3);
  }
  std::vector<std::string> keys;
  for (int i = 0; i < nkeys; i++) keys.push_back(Fmt("k%03d", i) + (g.P(10) ? std::string(g.U(200), 'x') : ""));
  Model replica(a.ordered, a.order->ref);
  for (int i = 0; i < nkeys; i++) if (g.P(50)) {
    std::string v = "init" + std::to_string(i);
    s = d->Set(keys[i], v);
    VCHECK(c, s == Status::SUCCESS, "set", "%s", SS(s).c_str());
    if (kind == 1) md->Set(keys[i], v);
    replica.Set(keys[i], v);
  }
  d->SetUpdateLogger(kind == 0 ? (DBM::UpdateLogger*)&log : lib.get());
  std::atomic<int> errs{0};
  std::mutex emu;
  std::string err;
  auto fail = [&](const std::string& m) { std::lock_guard<std::mutex> l(emu); if (err.empty()) err = m; errs++; };
  std::unique_ptr<MessageQueue::Reader> reader;
  if (kind == 2) reader = mq.MakeReader(0);
  int64_t total = 0;
  for (int round = 0; round < rounds; round++) {
    std::vector<std::multiset<std::string>> acked(nthreads);  // simple mode: what must be in the log
    std::atomic<int64_t> nset{0}, nrem{0};
    std::vector<std::thread> th;
    for (int t = 0; t < nthreads; t++) {
      const uint64_t seed = g.Next();
      th.emplace_back([&, t, seed] {
        Rng r(seed);
        auto it = d->MakeIterator();
        for (int i = 0; i < nops && errs == 0; i++) {
          const std::string& k = keys[r.U(nkeys)];
          const std::string& k2 = keys[r.U(nkeys)];
          const int szc = (int)r.U(10);
          const std::string v = Fmt("%d.%d.%d.", round, t, i) + std::string(szc < 6 ? r.U(10) : szc < 9 ? r.U(60) : r.U(600), 'a' + t);
          Status st;
          auto ok = [&](std::initializer_list<int> l, const char* op) {
            for (int x : l) if ((int)st.GetCode() == x) return;
            fail(std::string(op) + ": " + SS(st));
          };
          const int OK = Status::SUCCESS, NF = Status::NOT_FOUND_ERROR, DUP = Status::DUPLICATION_ERROR, INF = Status::INFEASIBLE_ERROR;
          const int x = (int)r.U(style == 0 ? 60 : 100);
          if (style == 2 && x < 50) {
            // Editing by iterator.
            st = r.P(50) ? it->Jump(k) : it->First();
            if (st == Status::NOT_IMPLEMENTED_ERROR) st = it->First();
            if (st != Status::SUCCESS) continue;
            for (int j = 0; j < 3; j++) {
              if (r.P(50)) { st = it->Set(v); ok({OK, NF}, "Iter.Set"); if (st == Status::SUCCESS) { st = it->Next(); ok({OK, NF}, "Iter.Next"); } }
              else if (r.P(60)) { st = it->Remove(); ok({OK, NF}, "Iter.Remove"); }
              else { st = it->Next(); ok({OK, NF}, "Iter.Next"); }
            }
            continue;
          }
          if (x < 18) { st = d->Set(k, v, true); ok({OK}, "Set"); if (st == Status::SUCCESS) { acked[t].insert(v); nset++; } }
          else if (x < 24) { st = d->Set(k, v, false); ok({OK, DUP}, "Set"); if (st == Status::SUCCESS) { acked[t].insert(v); nset++; } }
          else if (x < 36) { st = d->Remove(k); ok({OK, NF}, "Remove"); if (st == Status::SUCCESS) nrem++; }
          else if (x < 42) { st = d->Append(k, v, ","); ok({OK}, "Append"); if (st == Status::SUCCESS) nset++; }
          else if (x < 46) { int64_t cur = 0; st = d->Increment(k, 1, &cur, 5); ok({OK}, "Increment"); if (st == Status::SUCCESS) nset++; }
          else if (x < 52) { std::string cv; const bool has = d->Get(k, &cv) == Status::SUCCESS; st = d->CompareExchange(k, has ? std::string_view(cv) : std::string_view(), v); ok({OK, INF}, "CompareExchange"); if (st == Status::SUCCESS) { acked[t].insert(v); nset++; } }
          else if (x < 57) { st = d->Get(k); ok({OK, NF}, "Get"); }
          else if (x < 60) { st = d->Process(k, [&](std::string_view, std::string_view) -> std::string_view { return DBM::RecordProcessor::NOOP; }, true); ok({OK}, "Process"); }
          else if (x < 66) { st = d->SetMulti({{k, v + "1"}, {k2, v + "2"}}, r.P(70)); ok({OK, DUP}, "SetMulti"); }
          else if (x < 70) { st = d->RemoveMulti({k, k2}); ok({OK, NF}, "RemoveMulti"); }
          else if (x < 76) { st = d->CompareExchangeMulti({{k, DBM::ANY_DATA}}, {{k, std::string_view()}, {k2, v}}); ok({OK, INF}, "CompareExchangeMulti"); }
          else if (x < 82) { st = d->Rekey(k, k2, r.P(70), r.P(30)); ok({OK, NF, DUP}, "Rekey"); }
          else if (x < 87) { st = d->AppendMulti({{k, v}, {k2, v}}, ":"); ok({OK}, "AppendMulti"); }
          else if (x < 90) { std::string pk, pv; st = d->PopFirst(&pk, &pv); ok({OK, NF}, "PopFirst"); }
          else if (x < 92) { std::string pk; st = d->PushLast(v, -1, &pk); ok({OK}, "PushLast"); }
          else if (x < 94) {
            Rng q(r.Next());
            std::string nv;
            st = d->ProcessEach([&](std::string_view key, std::string_view) -> std::string_view {
              if (key.data() == DBM::RecordProcessor::NOOP.data()) return DBM::RecordProcessor::NOOP;
              const int y = (int)q.U(10);
              if (y == 0) return DBM::RecordProcessor::REMOVE;
              if (y == 1) { nv = v + "e"; return nv; }
              return DBM::RecordProcessor::NOOP;
            }, true);
            ok({OK}, "ProcessEach");
          }
          else if (x < 96 && clears) { if (r.P(40)) { st = d->Clear(); ok({OK}, "Clear"); } }
          else if (x < 98 && rebuilds) { if (r.P(30)) { st = d->Rebuild(); ok({OK}, "Rebuild"); } }
          else { st = d->Synchronize(false); ok({OK}, "Synchronize"); }
        }
      });
    }
    for (auto& t : th) t.join();
    if (errs) c.Fail("status", err);
    const Content now = Dump(c, d.get());
    if (kind == 0) {
      auto evs = log.Take();
      total += evs.size();
      int64_t ns = 0, nr = 0;
      std::multiset<std::string> logged;
      uint64_t h = 0;
      for (auto& e : evs) {
        if (!Replay(replica, e)) c.Fail("logged-without-effect", Fmt("the log removes a record which isn't there at that point: %s", EvStr(e).c_str()));
        if (e.op == 'S') { ns++; logged.insert(e.v); } else if (e.op == 'R') nr++;
        h = Mix(h ^ HashStr(e.v) ^ (uint64_t)e.op);
      }
      c.Sig(h);
      c.Eval(h);
      auto df = DiffContent(now, ToContent(replica));
      if (!df.empty()) c.Fail("replay", Fmt("round %d, %zu events: ", round, evs.size()) + df + " (expected: the database, got: the replay)");
      if (style == 0) {
        for (auto& st : acked) for (auto& v : st) if (logged.count(v) != 1) c.Fail("exactly-once", Fmt("the update to %s is logged %zu times", Show(v).c_str(), logged.count(v)));
        if (ns != nset || nr != nrem) c.Fail("exactly-once", Fmt("%lld settings and %lld removals succeed, %lld and %lld are logged", (long long)nset, (long long)nrem, (long long)ns, (long long)nr));
      }
    } else if (kind == 1) {
      auto df = DiffContent(now, Dump(c, md.get()));
      if (!df.empty()) c.Fail("mirror", Fmt("round %d: ", round) + df);
      total += nset + nrem;
    } else {
      int64_t ts = 0, last = 0;
      std::string msg;
      while (true) {
        Status rs = reader->Read(&ts, &msg, 0);
        if (rs == Status::INFEASIBLE_ERROR) break;
        VCHECK(c, rs == Status::SUCCESS, "queue-read", "%s", SS(rs).c_str());
        VCHECK(c, ts >= last, "queue-read", "the time goes back");
        last = ts;
        DBMUpdateLoggerMQ::UpdateLog u;
        rs = DBMUpdateLoggerMQ::ParseUpdateLog(msg, &u);
        VCHECK(c, rs == Status::SUCCESS, "parse", "%s", SS(rs).c_str());
        VCHECK(c, u.server_id == 7 && u.dbm_index == 3, "parse", "identifiers %d %d", u.server_id, u.dbm_index);
        Ev e{u.op_type == DBMUpdateLoggerMQ::OP_SET ? 'S' : u.op_type == DBMUpdateLoggerMQ::OP_REMOVE ? 'R' : 'C', std::string(u.key), std::string(u.value)};
        total++;
        if (!Replay(replica, e)) c.Fail("logged-without-effect", "by queue: " + EvStr(e));
      }
      auto df = DiffContent(now, ToContent(replica));
      if (!df.empty()) c.Fail("replay", Fmt("by queue, round %d: ", round) + df);
    }
  }
  c.Stat("events_conc", total);
  c.Reach("conc:" + a.cls + ":" + std::to_string(kind));
  if (total > 3) c.nontrivial = true;
  a.Close(d.get());
  if (kind == 1) b.Close(md.get());
  reader.reset();
  if (kind == 2) { s = mq.Close(); VCHECK(c, s == Status::SUCCESS, "close", "queue: %s", SS(s).c_str()); }
}

// Several databases and servers write to one queue; every combination of filters is replayed.
static void Queue(Ctx& c, Rng& g) {
  const int ndb = (int)g.R(1, 3), phases = (int)g.R(1, 4);
  const bool conc = g.P(40);
  const int64_t max_size = g.Pick<int64_t>({1, 300, 2000, 100000, 1 << 30});
  const bool param = g.P(30);  // the logger is set up by parameters of the database
  Describe(c, Fmt("queue ndb=%d phases=%d conc=%d max=%lld param=%d", ndb, phases, conc, (long long)max_size, param));
  c.Sig(c.desc);
  struct U { int64_t ts; int sid, idx; Ev e; };
  auto apply_ref = [](std::vector<U>& us, std::map<std::string, std::string>* m, int64_t min_ts, int sid, int idx) {
    for (auto& u : us) {
      if (u.ts < min_ts) continue;
      if (sid < 0 ? u.sid == -sid : u.sid != sid) continue;
      if (idx < 0 ? u.idx == -idx : u.idx != idx) continue;
      if (u.e.op == 'S') (*m)[u.e.k] = u.e.v; else if (u.e.op == 'R') m->erase(u.e.k); else m->clear();
    }
  };
  std::vector<U> all;
  std::vector<std::map<std::string, std::string>> finals(ndb);
  std::vector<std::vector<std::map<std::string, std::string>>> snaps(ndb);
  std::vector<int64_t> phase_ts;
  std::vector<int> index(ndb);
  for (int i = 0; i < ndb; i++) index[i] = (int)g.Pick({0, 1, 2, 200, 100000}) * 4 + i;
  const int sids[] = {0, 1, 127, 128, 70000};
  auto key = [&](Rng& r) { return Fmt("k%d", (int)r.U(12)) + (r.P(5) ? std::string(r.U(300), 'K') : ""); };
  if (param) {
    // Each session of the database opens its own queue files.
    const int sid = sids[g.U(5)];
    AnyOpt ao;
    ao.classes = {"PolyDBM", "ShardDBM"};
    ao.orders = false;
    AnyDB a = AnyDB::Make(g, c.dir, ao);
    a.params["ulog_prefix"] = c.Path("ulog");
    a.params["ulog_max_file_size"] = std::to_string(max_size);
    a.params["ulog_server_id"] = std::to_string(sid);
    a.params["ulog_dbm_index"] = std::to_string(index[0]);
    Describe(c, c.desc + " " + a.desc);
    auto d = a.New();
    std::map<std::string, std::string> m;
    for (int p = 0; p < phases; p++) {
      Status s = a.Open(d.get());
      VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
      const int n = (int)g.U(60);
      for (int i = 0; i < n; i++) {
        const std::string k = key(g), v = g.Bytes(g.P(95) ? g.U(30) : 5000);
        const int x = (int)g.U(20);
        if (x < 12) { s = d->Set(k, v); m[k] = v; }
        else if (x < 17) { s = d->Remove(k); m.erase(k); if (s == Status::NOT_FOUND_ERROR) s = Status(Status::SUCCESS); }
        else if (x == 17) { s = d->Append(k, v); m[k] += v; }
        else if (x == 18 && g.P(30)) { s = d->Clear(); m.clear(); }
        else if (x == 19 && g.P(30)) s = d->Rebuild();
        VCHECK(c, s == Status::SUCCESS, "update", "%s", SS(s).c_str());
        c.case_evals++;
      }
      s = d->Close();
      VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
    }
    for (int f = 0; f < 4; f++) {
      StdTreeDBM r;
      const bool in = f == 0 || f == 2;
      const int fs = f == 0 ? sid : f == 1 ? sid + 1 : INT32MIN + 1, fi = f == 3 && index[0] > 0 ? -index[0] : f == 3 ? 5 : index[0];
      const bool want = in && (f != 3);
      Status s = DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(&r, c.Path("ulog"), 0, fs, fi);
      VCHECK(c, s == Status::SUCCESS, "apply", "%s", SS(s).c_str());
      Content got = Dump(c, &r), w;
      if (want) for (auto& kv : m) w.emplace(kv.first, kv.second);
      auto df = DiffContent(w, got);
      if (!df.empty()) c.Fail("apply-files", Fmt("by parameters, filter %d: ", f) + df);
    }
    c.Reach("param:" + a.cls);
    c.nontrivial = true;
    return;
  }
  std::vector<std::unique_ptr<DBM>> dbs;
  for (int i = 0; i < ndb; i++) {
    if (g.P(50)) dbs.emplace_back(new TinyDBM(11)); else dbs.emplace_back(new BabyDBM());
  }
  MessageQueue mq;
  const std::string prefix = c.Path("ulog");
  Status s = mq.Open(prefix, max_size);
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  int64_t ts = 1000000;
  std::vector<int> own(ndb);
  for (int i = 0; i < ndb; i++) own[i] = sids[g.U(5)];
  for (int p = 0; p < phases; p++) {
    ts += g.Pick({0, 1, 10, 5000});
    if (phase_ts.empty() || phase_ts.back() != ts) { phase_ts.push_back(ts); for (int i = 0; i < ndb; i++) snaps[i].push_back(finals[i]); }
    std::vector<std::unique_ptr<DBMUpdateLoggerMQ>> lg;
    for (int i = 0; i < ndb; i++) { lg.emplace_back(new DBMUpdateLoggerMQ(&mq, own[i], index[i], ts)); dbs[i]->SetUpdateLogger(lg.back().get()); }
    auto work = [&](int i, uint64_t seed) {
      Rng r(seed);
      int over = -1;
      std::vector<U> us;
      const int n = (int)r.U(80);
      for (int j = 0; j < n; j++) {
        if (r.P(10)) { over = r.P(30) ? INT32MIN : r.P(50) ? -1 : sids[r.U(5)]; DBMUpdateLoggerMQ::OverwriteThreadServerID(over); }
        const int sid = over >= 0 ? over : own[i];
        const std::string k = key(r), v = r.Bytes(r.P(95) ? r.U(30) : r.P(50) ? 4050 + r.U(60) : 5000);
        const int x = (int)r.U(20);
        Ev e{0, k, v};
        if (x < 12) { dbs[i]->Set(k, v); e.op = 'S'; finals[i][k] = v; }
        else if (x < 18) { if (dbs[i]->Remove(k) == Status::SUCCESS) { e.op = 'R'; e.v = ""; } finals[i].erase(k); }
        else if (x == 18 && r.P(20)) { dbs[i]->Clear(); e = {'C', "", ""}; finals[i].clear(); }
        else if (x == 19) { dbs[i]->Set(k, v, false); if (!finals[i].count(k)) { e.op = 'S'; finals[i][k] = v; } }
        if (e.op && over != INT32MIN) us.push_back({ts, sid, index[i], e});
      }
      DBMUpdateLoggerMQ::OverwriteThreadServerID(-1);
      return us;
    };
    std::vector<std::vector<U>> parts(ndb);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < ndb; i++) seeds.push_back(g.Next());
    if (conc) {
      std::vector<std::thread> th;
      for (int i = 0; i < ndb; i++) th.emplace_back([&, i] { parts[i] = work(i, seeds[i]); });
      for (auto& t : th) t.join();
    } else for (int i = 0; i < ndb; i++) parts[i] = work(i, seeds[i]);
    for (auto& pt : parts) for (auto& u : pt) all.push_back(u);
    for (int i = 0; i < ndb; i++) dbs[i]->SetUpdateLogger(nullptr);
    if (g.P(30)) { s = mq.Close(); VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str()); s = mq.Open(prefix, max_size); VCHECK(c, s == Status::SUCCESS, "reopen", "%s", SS(s).c_str()); }
  }
  // What a reader gets: per database in order.
  {
    auto rd = mq.MakeReader(0);
    std::map<int, std::vector<U>> want, got;
    for (auto& u : all) want[u.idx].push_back(u);
    int64_t t; std::string msg;
    while (true) {
      s = rd->Read(&t, &msg, 0);
      if (s == Status::INFEASIBLE_ERROR) break;
      VCHECK(c, s == Status::SUCCESS, "queue-read", "%s", SS(s).c_str());
      DBMUpdateLoggerMQ::UpdateLog u;
      s = DBMUpdateLoggerMQ::ParseUpdateLog(msg, &u);
      VCHECK(c, s == Status::SUCCESS, "parse", "%s", SS(s).c_str());
      got[u.dbm_index].push_back({t, u.server_id, u.dbm_index, {u.op_type == 1 ? 'S' : u.op_type == 2 ? 'R' : 'C', std::string(u.key), std::string(u.value)}});
      // Every cut of a message is refused and none is read beyond its end.
      if (g.P(3)) {
        const size_t cut = g.U(msg.size());
        std::unique_ptr<char[]> buf(new char[cut + 1]);
        memcpy(buf.get(), msg.data(), cut);
        std::unique_ptr<char[]> exact(new char[std::max<size_t>(cut, 1)]);
        memcpy(exact.get(), msg.data(), cut);
        DBMUpdateLoggerMQ::UpdateLog x;
        s = DBMUpdateLoggerMQ::ParseUpdateLog(std::string_view(exact.get(), cut), &x);
        if (u.op_type != 3) VCHECK(c, s == Status::BROKEN_DATA_ERROR, "parse-cut", "%zu of %zu bytes: %s", cut, msg.size(), SS(s).c_str());
      }
    }
    for (auto& kv : want) {
      auto& x = kv.second; auto& y = got[kv.first];
      VCHECK(c, x.size() == y.size(), "queue-log", "database %d: %zu updates, %zu in the queue", kv.first, x.size(), y.size());
      for (size_t i = 0; i < x.size(); i++)
        VCHECK(c, x[i].ts == y[i].ts && x[i].sid == y[i].sid && x[i].e.op == y[i].e.op && x[i].e.k == y[i].e.k && x[i].e.v == y[i].e.v, "queue-log", "database %d update %zu: %s by %d at %lld, want %s by %d at %lld",
               kv.first, i, EvStr(y[i].e).c_str(), y[i].sid, (long long)y[i].ts, EvStr(x[i].e).c_str(), x[i].sid, (long long)x[i].ts);
    }
  }
  s = mq.Close();
  VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
  // Filters.
  std::vector<int> fs = {INT32MIN + 1}, fi;
  for (int x : sids) { fs.push_back(x); if (x > 0) fs.push_back(-x); }
  for (int x : index) { fi.push_back(x); if (x > 0 && ndb <= 2) fi.push_back(-x); }
  if (ndb == 1) fi.push_back(INT32MIN + 1);
  for (int rep = 0; rep < 12; rep++) {
    const int xs = g.Pick(fs), xi = g.Pick(fi);
    // A filter that lets more than one database through has an order only within one thread.
    int matched = 0;
    for (int i = 0; i < ndb; i++) if (xi < 0 ? index[i] != -xi : index[i] == xi) matched++;
    if (matched > 1) continue;
    const size_t p = g.U(phase_ts.size());
    const int64_t mints = g.P(30) ? 0 : phase_ts[p] - (g.P(50) ? 0 : g.P(50) ? -1 : 0);
    std::map<std::string, std::string> w;
    apply_ref(all, &w, mints, xs, xi);
    StdTreeDBM r;
    s = DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(&r, prefix, (double)mints, xs, xi);
    VCHECK(c, s == Status::SUCCESS, "apply", "%s", SS(s).c_str());
    Content want;
    for (auto& kv : w) want.emplace(kv.first, kv.second);
    auto df = DiffContent(want, Dump(c, &r));
    if (!df.empty()) c.Fail("apply-files", Fmt("from %lld, server %d, database %d: ", (long long)mints, xs, xi) + df);
    c.Eval(HashStr(Fmt("%d %d %lld", xs, xi, (long long)mints)));
    c.Stat("filtered_replays");
    c.Reach(Fmt("filter:%d%d", xs < 0, xi < 0));
  }
  // Point in time: the contents at the beginning of a phase, and the log from there.
  for (int i = 0; i < ndb; i++) {
    bool silent = false;
    for (size_t p = 0; p < phase_ts.size(); p++) {
      auto w = snaps[i][p];
      StdTreeDBM r;
      for (auto& kv : w) r.Set(kv.first, kv.second);
      apply_ref(all, &w, phase_ts[p], INT32MIN + 1, index[i]);
      s = DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(&r, prefix, (double)phase_ts[p], INT32MIN + 1, index[i]);
      VCHECK(c, s == Status::SUCCESS, "apply", "%s", SS(s).c_str());
      Content want;
      for (auto& kv : w) want.emplace(kv.first, kv.second);
      auto df = DiffContent(want, Dump(c, &r));
      if (!df.empty()) c.Fail("point-in-time", Fmt("database %d from phase %zu: ", i, p) + df);
      (void)silent;
    }
  }
  c.Stat("events_queue", all.size());
  if (all.size() > 3) c.nontrivial = true;
}

static void Case(Ctx& c, Rng& g, int64_t n) {
  const int x = (int)g.U(100);
#ifdef ONLY_CONCURRENT
  Concurrent(c, g);
#else
  if (x < 50) Sequential(c, g);
  else if (x < 80) Concurrent(c, g);
  else Queue(c, g);
#endif
}

int main(int argc, char** argv) { return Main(argc, argv, "C15", Case); }
