// C09: concurrent use of the public API is free of data races (ThreadSanitizer), misuse of freed state (AddressSanitizer) and deadlocks (watchdog).
#include "anydb.h"
#include "wrapfile.h"
#include "tkrzw_dbm_async.h"
#include "tkrzw_dbm_common_impl.h"
#include "tkrzw_dbm_ulog.h"
#include "tkrzw_index.h"
#include "tkrzw_message_queue.h"
using namespace vh;
using namespace tkrzw;

struct Err {
  std::mutex mu; std::string msg; std::atomic<int> n{0};
  void Add(const std::string& m) { std::lock_guard<std::mutex> l(mu); if (msg.empty()) msg = m; n++; }
};
static bool Plain(const Status& s) {
  return s == Status::SUCCESS || s == Status::NOT_FOUND_ERROR || s == Status::DUPLICATION_ERROR || s == Status::INFEASIBLE_ERROR;
}

// Every method of a database from every thread.
static void DbCase(Ctx& c, Rng& g) {
  AnyOpt ao;
  ao.tiny_trees = true; ao.small = true;
  ao.orders = false;
  ao.classes = {"HashDBM", "TreeDBM", "SkipDBM", "TinyDBM", "BabyDBM", "CacheDBM", "StdHashDBM", "StdTreeDBM", "PolyDBM", "ShardDBM", "HashDBM", "TreeDBM", "SkipDBM"};
  AnyDB a = AnyDB::Make(g, c.dir, ao);
  const int nthreads = (int)g.R(2, 6), nops = (int)g.Pick({20, 60, 120}), nkeys = (int)g.Pick({2, 10, 100});
  if ((a.cls == "HashDBM" || a.cls == "TreeDBM" || a.cls == "SkipDBM") && g.P(40)) {
    auto hub = std::make_shared<DelayHub>(g.Next(), 5, 60);
    a.fc.block = 0; a.fc.options = 0;
    FileCfg fc = a.fc;
    a.file_maker = [hub, fc] { return std::make_unique<WrapFile>(hub, fc); };
  }
  // Which rare methods take part: few at a time, so that none is hidden behind another
  const int mask = (int)g.Pick({0, 0xffff, 1 << g.U(12), (1 << g.U(12)) | (1 << g.U(12))});
  const bool ulog = g.P(15);
  Describe(c, Fmt("db threads=%d ops=%d keys=%d mask=%x ulog=%d ", nthreads, nops, nkeys, mask, ulog) + a.desc);
  c.Sig(c.desc);
  DBMUpdateLoggerStrDeque logger;
  auto d = a.New();
  if (ulog) d->SetUpdateLogger(&logger);
  Status s = a.Open(d.get());
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  Err err;
  std::atomic<int> done{0};
  std::atomic<bool> appending{false};
  std::vector<std::atomic<int64_t>> kinds(40);
  std::vector<std::thread> th;
  for (int t = 0; t < nthreads; t++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, t, seed] {
      Rng r(seed);
      std::unique_ptr<DBM::Iterator> it = d->MakeIterator();
      int left = mask ? 4 : 0;
      for (int i = 0; i < nops && err.n == 0; i++) {
        std::string k = Fmt("k%03d", (int)r.U(nkeys)), k2 = Fmt("k%03d", (int)r.U(nkeys)), v;
        std::string val(r.P(10) ? r.U(500) : r.U(20), 'a' + t);
        Status st(Status::SUCCESS);
        int m = (int)r.U(22);
        const int rare = (int)r.U(12);
        if (r.P(12) && (mask >> rare & 1) && left > 0) { left--; m = 100 + rare; }
        if (m < 40) kinds[m]++; else kinds[m - 100 + 24]++;
        switch (m) {
          case 0: case 1: st = d->Get(k, &v); break;
          case 2: case 3: case 4: st = d->Set(k, val, r.P(80), r.P(30) ? &v : nullptr); break;
          case 5: case 6: st = d->Remove(k, r.P(30) ? &v : nullptr); break;
          case 7: st = d->Append(k, val, "|"); break;
          case 8: st = d->CompareExchange(k, r.P(50) ? std::string_view() : std::string_view(DBM::ANY_DATA), val, &v); break;
          case 9: { int64_t cur; st = d->Increment(k + "i", 1, &cur, 0); break; }
          case 10: st = d->Process(k, [&](std::string_view, std::string_view) -> std::string_view { return r.P(50) ? std::string_view(val) : r.P(50) ? DBM::RecordProcessor::REMOVE : DBM::RecordProcessor::NOOP; }, true); break;
          case 11: if (!a.skip) st = d->CompareExchangeMulti({{k, std::string_view()}}, {{k2, val}, {k, val}}); break;
          case 12: if (!a.skip) st = d->Rekey(k, k2, r.P(50), r.P(30), &v); break;
          case 13: { std::map<std::string, std::string> rec; st = d->GetMulti(std::vector<std::string_view>{k, k2}, &rec); break; }
          case 14: case 15: case 16: {
            const int how = (int)r.U(a.ordered ? 8 : 3);
            if (how == 0) it->First(); else if (how == 1) it->Jump(k); else if (how == 2) {} else if (how == 3) it->Last(); else if (how == 4) it->JumpLower(k, r.P(50)); else if (how == 5) it->JumpUpper(k, r.P(50)); else if (how == 6) it->Previous(); else it->Next();
            for (int q = (int)r.U(6); q > 0; q--) {
              std::string ik, iv;
              Status is = it->Get(&ik, &iv);
              if (!Plain(is)) err.Add("Iterator::Get: " + SS(is));
              if (is == Status::SUCCESS && r.P(10)) is = it->Set(val);
              else if (is == Status::SUCCESS && r.P(10)) is = it->Remove();
              else is = it->Next();
              if (!Plain(is)) err.Add("Iterator: " + SS(is));
            }
            if (r.P(20)) it = d->MakeIterator();
            break;
          }
          case 17: { int64_t n = 0; st = d->Count(&n); if (st == Status::SUCCESS && n < 0) err.Add("negative Count"); int64_t z = 0; if (a.bound) { st = d->GetFileSize(&z); } break; }
          case 18: { double ts; std::string p; if (a.bound) { st = d->GetTimestamp(&ts); if (st == Status::SUCCESS) st = d->GetFilePath(&p); if (st == Status::SUCCESS && p.empty()) err.Add("empty path"); } break; }
          case 19: { const bool o = a.bound; if (d->IsOpen() != o && o) err.Add("IsOpen is false"); if (o && !d->IsHealthy()) err.Add("IsHealthy is false"); if (o && !d->IsWritable()) err.Add("IsWritable is false"); d->IsOrdered(); break; }
          case 20: { auto meta = d->Inspect(); if (meta.empty()) err.Add("Inspect is empty"); bool tobe; st = d->ShouldBeRebuilt(&tobe); break; }
          case 21: {
            if (auto* h = dynamic_cast<HashDBM*>(d.get())) { h->GetEffectiveDataSize(); h->GetDatabaseType(); h->GetOpaqueMetadata(); h->CountBuckets(); h->GetUpdateMode(); h->IsAutoRestored(); if (r.P(30)) h->CountUsedBuckets(); if (r.P(30)) st = h->SetOpaqueMetadata("o"); if (r.P(30)) h->SetDatabaseType(r.U(9)); }
            else if (auto* h = dynamic_cast<TreeDBM*>(d.get())) { h->GetEffectiveDataSize(); h->GetDatabaseType(); h->GetOpaqueMetadata(); h->GetKeyComparator(); h->IsAutoRestored(); if (r.P(30)) st = h->SetOpaqueMetadata("o"); if (r.P(30)) h->SetDatabaseType(r.U(9)); }
            else if (auto* h = dynamic_cast<SkipDBM*>(d.get())) { h->GetEffectiveDataSize(); h->GetDatabaseType(); h->GetOpaqueMetadata(); h->IsUpdated(); h->IsAutoRestored(); if (r.P(30)) st = h->SetOpaqueMetadata("o"); std::string ik; st = h->GetByIndex(r.U(10), &ik, &v); }
            else if (auto* h = dynamic_cast<CacheDBM*>(d.get())) { h->GetEffectiveDataSize(); h->GetMemoryUsage(); }
            else d->GetUpdateLogger();
            break;
          }
          case 100: st = d->Synchronize(false); break;
          case 101: st = a.Rebuild(d.get(), r); break;
          case 102: st = d->Clear(); break;
          case 103: st = d->ProcessEach([&](std::string_view, std::string_view) { return DBM::RecordProcessor::NOOP; }, r.P(50)); break;
          case 104: st = d->ProcessFirst([&](std::string_view, std::string_view) { return DBM::RecordProcessor::NOOP; }, r.P(50)); break;
          case 105: st = a.skip ? st : d->PopFirst(&k, &v); break;
          case 106: if (a.bound) { st = d->CopyFileData(c.dir + Fmt("/copy%d", t), false); if (st == Status::PRECONDITION_ERROR || st == Status::NOT_IMPLEMENTED_ERROR) st = Status(Status::SUCCESS); } break;
          case 107: { BabyDBM dest; st = d->Export(&dest); break; }
          case 108: { auto o = d->MakeDBM(); if (!o) err.Add("MakeDBM"); break; }
          case 109: if (!a.skip) st = d->ProcessMulti(std::vector<std::pair<std::string_view, DBM::RecordLambdaType>>{{k, [&](std::string_view, std::string_view) -> std::string_view { return val; }}, {k2, [&](std::string_view, std::string_view) -> std::string_view { return DBM::RecordProcessor::REMOVE; }}}, true); break;
          case 110: { std::vector<std::string> mk; st = SearchDBMModal(d.get(), "contain", "k0", &mk, 5); break; }
          case 111:
            if (auto* h = dynamic_cast<HashDBM*>(d.get())) { if (r.P(50)) st = h->ValidateHashBuckets(); else { appending = true; st = h->SetUpdateModeAppending(); } }
            else if (auto* h = dynamic_cast<TreeDBM*>(d.get())) st = h->ValidateHashBuckets();
            else if (auto* h = dynamic_cast<SkipDBM*>(d.get())) { if (r.P(50)) st = h->Revert(); }
            else st = d->PushLast(val);
            break;
        }
        if (!Plain(st)) err.Add(Fmt("operation %d: ", m) + SS(st));
        done++;
        if (ulog && r.P(10)) { std::string tx; logger.PopFront(&tx); logger.GetSize(); }
        if (r.P(5)) std::this_thread::yield();
      }
    });
  }
  for (auto& x : th) x.join();
  if (err.n) c.Fail("status", err.msg);
  // The state is still coherent.
  int64_t cnt = -1, walked = 0;
  if (a.skip) { s = d->Synchronize(false); VCHECK(c, s == Status::SUCCESS, "sync", "%s", SS(s).c_str()); }
  s = d->Count(&cnt);
  VCHECK(c, s == Status::SUCCESS, "count", "%s", SS(s).c_str());
  s = d->ProcessEach([&](std::string_view k, std::string_view) -> std::string_view { if (k.data() != DBM::RecordProcessor::NOOP.data()) walked++; return DBM::RecordProcessor::NOOP; }, false);
  VCHECK(c, s == Status::SUCCESS && walked == cnt, "walk", "ProcessEach visits %lld, Count %lld", (long long)walked, (long long)cnt);
  if (auto* h = dynamic_cast<HashDBM*>(d.get())) {
    s = h->ValidateHashBuckets(); VCHECK(c, s == Status::SUCCESS, "validate", "%s", SS(s).c_str());
    s = h->ValidateRecords(-1, -1);
    VCHECK(c, s == Status::SUCCESS, "validate", "%s", SS(s).c_str());
  }
  if (a.bound) { s = d->Close(); VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str()); }
  c.Stat("db_operations", done);
  for (int i = 24; i < 36; i++) c.Stat(Fmt("rare_%d", i - 24), kinds[i]);
  c.Reach(a.inner + (a.cls != a.inner ? "/" + a.cls : "") + (mask == 0 ? " common" : " rare"));
}

template <class IDX> static void IndexBody(Ctx& c, Rng& g, IDX* x, const std::function<Status(int)>& rare, Err* err) {
  const int nthreads = (int)g.R(2, 5), nops = 60;
  std::vector<std::thread> th;
  std::vector<std::multiset<std::string>> mine(nthreads);
  for (int t = 0; t < nthreads; t++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, t, seed] {
      Rng r(seed);
      auto it = x->MakeIterator();
      std::set<std::string> set;
      for (int i = 0; i < nops && err->n == 0; i++) {
        std::string k = Fmt("k%d", (int)r.U(5)), v = Fmt("%d-%d", t, (int)r.U(20));
        const int m = (int)r.U(10);
        if (m < 4) { x->Add(k, v); set.insert(k + "/" + v); }
        else if (m < 6) { x->Remove(k, v); set.erase(k + "/" + v); }
        else if (m < 7) { if (x->Check(k, v) != (set.count(k + "/" + v) > 0)) err->Add("Check disagrees with this thread's own pairs"); }
        else if (m < 8) { x->GetValues(k, r.U(5)); }
        else if (m < 9) {
          if (r.P(30)) it->First(); else if (r.P(30)) it->Last(); else if (r.P(50)) it->Jump(k, v);
          std::string ik, iv;
          for (int q = 0; q < 5 && it->Get(&ik, &iv); q++) { if (r.P(70)) it->Next(); else it->Previous(); }
        } else { x->Count(); if (r.P(30)) { Status st = rare((int)r.U(4)); if (!Plain(st)) err->Add(SS(st)); } }
        if (r.P(5)) std::this_thread::yield();
      }
      for (auto& kv : set) mine[t].insert(kv);
    });
  }
  for (auto& h : th) h.join();
  if (err->n) return;
  size_t want = 0;
  for (auto& m : mine) want += m.size();
  if (x->Count() != want) err->Add(Fmt("the index has %zu pairs, the threads left %zu", (size_t)x->Count(), want));
  c.Stat("index_operations", nthreads * nops);
}

static void IndexCase(Ctx& c, Rng& g) {
  const int kind = (int)g.U(5);
  Describe(c, Fmt("index kind=%d seed=%llx", kind, (unsigned long long)g.Next()));
  c.Sig(c.desc);
  Err err;
  auto none = [](int) { return Status(Status::SUCCESS); };
  if (kind == 0) {
    FileIndex x;
    TreeDBM::TuningParameters tp;
    tp.max_page_size = 60; tp.max_branches = 3; tp.max_cached_pages = 2;
    tp.key_comparator = PairLexicalKeyComparator;
    Status s = x.Open(c.dir + "/i.tkt", true, File::OPEN_DEFAULT, tp);
    VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
    IndexBody(c, g, &x, [&](int m) { return m == 0 ? x.Rebuild() : m == 1 ? x.Synchronize(false) : (Status(Status::SUCCESS)); }, &err);
    x.Close();
  } else if (kind == 1) {
    MemIndex x; IndexBody(c, g, &x, none, &err);
  } else if (kind == 2) {
    PolyIndex x;
    Status s = x.Open(c.dir + "/i.tkmb", true, File::OPEN_DEFAULT, {{"key_comparator", "PairLexicalKeyComparator"}});
    VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
    IndexBody(c, g, &x, [&](int m) { return m == 0 ? x.Rebuild() : m == 1 ? x.Synchronize(false) : Status(Status::SUCCESS); }, &err);
    x.Close();
  } else if (kind == 3) {
    StdIndex<std::string, std::string> x; IndexBody(c, g, &x, none, &err);
  } else {
    StdIndexStr x; IndexBody(c, g, &x, none, &err);
  }
  if (err.n) c.Fail("index", err.msg);
  c.Reach(Fmt("index %d", kind));
}

// All methods of a file; the bytes are each thread's own unless the class is an atomic one.
static void FileCase(Ctx& c, Rng& g) {
  FileCfg fc = FileCfg::Make(g, true);
  fc.options &= ~PositionalFile::ACCESS_PADDING;
  const int nthreads = (int)g.R(2, 5), nops = 80;
  auto f = fc.New();
  const bool atomic = f->IsAtomic();
  Describe(c, Fmt("file threads=%d ", nthreads) + fc.Str() + Fmt(" seed=%llx", (unsigned long long)g.Next()));
  c.Sig(c.desc);
  Status s = f->Open(c.dir + "/f", true);
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  s = f->Write(0, std::string(nthreads * 100, '0').data(), nthreads * 100);
  VCHECK(c, s == Status::SUCCESS, "write", "%s", SS(s).c_str());
  Err err;
  std::atomic<int64_t> app{0};
  std::vector<std::thread> th;
  for (int t = 0; t < nthreads; t++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, t, seed] {
      Rng r(seed);
      std::string mine(100, '0');
      for (int i = 0; i < nops && err.n == 0; i++) {
        Status st(Status::SUCCESS);
        const int m = (int)r.U(12);
        char buf[200];
        if (m < 4) { const int o = (int)r.U(100), l = (int)r.R(1, 100 - o); std::string w(l, (char)('a' + r.U(26))); mine.replace(o, l, w); st = f->Write(t * 100 + o, w.data(), l); }
        else if (m < 7) { st = f->Read(t * 100, buf, 100); if (st == Status::SUCCESS && std::string(buf, 100) != mine) err.Add("a thread reads other bytes than it wrote"); }
        else if (m < 8 && atomic) { st = f->Read(0, buf, 100); }
        else if (m < 9) { std::string w(r.R(1, 50), 'A' + t); int64_t off = 0; st = f->Append(w.data(), w.size(), &off); app += w.size(); if (st == Status::SUCCESS) { st = f->Read(off, buf, w.size()); if (st == Status::SUCCESS && std::string(buf, w.size()) != w) err.Add("appended bytes read back differently"); } }
        else if (m < 10) { int64_t off = 0; const int l = (int)r.R(1, 50); st = f->Expand(l, &off); app += l; if (st == Status::SUCCESS) st = f->Write(off, buf, l); }
        else if (m < 11) { int64_t z = 0; st = f->GetSize(&z); if (z < nthreads * 100) err.Add("the size shrank"); std::string p; f->GetPath(&p); f->IsOpen(); f->IsMemoryMapping(); f->IsAtomic(); f->GetSizeSimple(); f->GetPathSimple(); }
        else if (r.P(20)) st = f->Synchronize(false);
        if (st != Status::SUCCESS) err.Add(Fmt("file operation %d: ", m) + SS(st));
        if (r.P(5)) std::this_thread::yield();
      }
    });
  }
  for (auto& h : th) h.join();
  if (err.n) c.Fail("file", err.msg);
  VCHECK(c, f->GetSizeSimple() == nthreads * 100 + app, "file:size", "the size is %lld, %lld bytes were written", (long long)f->GetSizeSimple(), (long long)(nthreads * 100 + app));
  s = f->Close();
  VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
  c.Stat("file_operations", nthreads * nops);
  c.Reach(std::string("file kind ") + Fmt("%d", fc.kind));
}

static void QueueCase(Ctx& c, Rng& g) {
  const int nw = (int)g.R(1, 3), nr = (int)g.R(1, 3), per = 40;
  const int64_t max = g.Pick<int64_t>({100, 1000, 100000});
  const bool early = g.P(40);
  Describe(c, Fmt("mq writers=%d readers=%d max=%lld early=%d seed=%llx", nw, nr, (long long)max, early, (unsigned long long)g.Next()));
  c.Sig(c.desc);
  MessageQueue q;
  Status s = q.Open(c.dir + "/mq", max);
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  Err err;
  std::vector<std::thread> th;
  std::atomic<int> live{nw};
  std::atomic<int64_t> got{0};
  for (int t = 0; t < nw; t++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, seed] {
      Rng r(seed);
      for (int i = 0; i < per; i++) {
        Status st = q.Write(r.P(50) ? -1 : i, std::string(r.U(100), 'm'));
        if (st != Status::SUCCESS) err.Add("Write: " + SS(st));
        if (r.P(10)) q.Synchronize(false);
        if (r.P(10)) q.GetTimestamp();
        if (r.P(5)) q.UpdateTimestamp(-1);
        if (r.P(10)) std::this_thread::yield();
      }
      live--;
    });
  }
  for (int t = 0; t < nr; t++) {
    const uint64_t seed = g.Next();
    // Made here, so that CancelReaders reaches it.
    std::shared_ptr<std::unique_ptr<MessageQueue::Reader>> prd = std::make_shared<std::unique_ptr<MessageQueue::Reader>>(q.MakeReader(0));
    th.emplace_back([&, seed, prd] {
      Rng r(seed);
      auto& rd = *prd;
      for (int i = 0; i < 100000 && err.n == 0; i++) {
        int64_t ts; std::string m;
        const bool over = live == 0;
        const double w = early || !over ? (r.P(50) ? 0 : early && r.P(30) ? -1 : 0.0005) : 0;
        Status st = r.P(20) ? rd->Wait(w) : rd->Read(&ts, &m, w);
        rd->GetTimestamp();
        if (st == Status::SUCCESS) got++;
        else if (st == Status::CANCELED_ERROR) { if (!early) err.Add("canceled"); break; }
        else if (st != Status::INFEASIBLE_ERROR) { err.Add("Read: " + SS(st)); break; }
        else if (over && !early) break;
        if (r.P(3) && !early) { rd = q.MakeReader(r.P(50) ? 0 : 10); }
      }
    });
  }
  if (early) {
    std::this_thread::sleep_for(std::chrono::microseconds(g.U(3000)));
    while (live > 0) std::this_thread::sleep_for(std::chrono::microseconds(100));
    if (g.P(50)) q.CancelReaders(); else q.Close();
  }
  for (auto& h : th) h.join();
  if (err.n) c.Fail("queue", err.msg);
  q.Close();
  c.Stat("queue_reads", got);
  c.Reach("queue");
}

static void AsyncCase(Ctx& c, Rng& g) {
  const int workers = (int)g.R(1, 5), subs = (int)g.R(1, 4), per = 60;
  const int kind = (int)g.U(3);
  Describe(c, Fmt("async workers=%d submitters=%d kind=%d seed=%llx", workers, subs, kind, (unsigned long long)g.Next()));
  c.Sig(c.desc);
  Err err;
  std::atomic<int64_t> posts{0};
  std::unique_ptr<DBM> d;
  if (kind == 0) d = std::make_unique<TinyDBM>(10);
  else if (kind == 1) { d = std::make_unique<HashDBM>(); Status s = d->Open(c.dir + "/a.tkh", true); VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str()); }
  else { d = std::make_unique<TreeDBM>(); Status s = d->Open(c.dir + "/a.tkt", true); VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str()); }
  int64_t want = 0;
  {
    AsyncDBM async(d.get(), workers);
    async.SetCommonPostprocessor([&](const char* name, const Status& st) { posts++; if (!Plain(st)) err.Add(std::string(name) + ": " + SS(st)); });
    std::vector<std::thread> th;
    std::atomic<int64_t> ops{0};
    for (int t = 0; t < subs; t++) {
      const uint64_t seed = g.Next();
      th.emplace_back([&, t, seed] {
        Rng r(seed);
        std::vector<std::future<Status>> fs;
        std::vector<std::future<std::pair<Status, std::string>>> gs;
        std::vector<std::future<std::pair<Status, int64_t>>> is;
        for (int i = 0; i < per; i++) {
          std::string k = Fmt("k%d", (int)r.U(10)), v(r.U(30), 'a' + t);
          ops++;
          switch (r.U(9)) {
            case 0: case 1: fs.push_back(async.Set(k, v)); break;
            case 2: gs.push_back(async.Get(k)); break;
            case 3: fs.push_back(async.Remove(k)); break;
            case 4: is.push_back(async.Increment(k + "i", 1)); break;
            case 5: fs.push_back(async.Append(k, v, ",")); break;
            case 6: fs.push_back(async.SetMulti(std::map<std::string, std::string>{{k, v}, {k + "b", v}})); break;
            case 7: fs.push_back(async.CompareExchange(k, std::string_view(), v)); break;
            default: if (r.P(20)) fs.push_back(r.P(50) ? async.Synchronize(false) : async.Rebuild()); else fs.push_back(async.Rekey(k, k + "r")); break;
          }
          if (r.P(5)) async.GetTaskQueue()->GetSize();
          if (r.P(20)) { if (!fs.empty() && fs.back().valid()) { StatusFuture sf(std::move(fs.back())); fs.pop_back(); if (sf.Wait(10)) sf.Get(); else err.Add("a future is not ready in ten seconds"); } }
        }
        if (r.P(80)) { for (auto& f : fs) f.get(); for (auto& f : gs) f.get(); for (auto& f : is) f.get(); }
      });
    }
    for (auto& h : th) h.join();
    want = ops;
  }
  if (err.n) c.Fail("async", err.msg);
  VCHECK(c, posts == want, "async:posts", "%lld operations, the postprocessor saw %lld", (long long)want, (long long)posts);
  if (kind) d->Close();
  c.Stat("async_operations", want);
  c.Reach(Fmt("async %d", kind));
}

static void Case(Ctx& c, Rng& g, int64_t n) {
  const int k = (int)g.U(20);
  if (k < 14) DbCase(c, g);
  else if (k < 16) IndexCase(c, g);
  else if (k < 18) FileCase(c, g);
  else if (k < 19) QueueCase(c, g);
  else AsyncCase(c, g);
  c.nontrivial = true;
}

int main(int argc, char** argv) { return Main(argc, argv, "C09", Case); }
