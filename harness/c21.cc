// C21: asynchronous operations run exactly once and give the real results; task queues lose nothing.
#include <deque>
#include <list>
#include <thread>
#include "anydb.h"
#include "linz.h"
#include "tkrzw_dbm_async.h"
#include "tkrzw_dbm_common_impl.h"
#include "tkrzw_thread_util.h"
using namespace vh;
using namespace tkrzw;

// An argument whose memory is gone once the call has returned.
struct Eph {
  std::vector<std::pair<char*, size_t>> b;
  std::string_view operator()(std::string_view s) {
    if (s.data() == nullptr || s.data() == DBM::ANY_DATA.data()) return s;
    char* p = (char*)malloc(s.size() ? s.size() : 1);
    memcpy(p, s.data(), s.size());
    b.emplace_back(p, s.size());
    return std::string_view(p, s.size());
  }
  ~Eph() { for (auto& x : b) { memset(x.first, 0xEE, x.second); free(x.first); } }
};
static std::string Dump(DBM* d) {
  std::map<std::string, std::string> m;
  auto it = d->MakeIterator();
  std::string k, v, r;
  if (it->First() == Status::SUCCESS) while (it->Get(&k, &v) == Status::SUCCESS) { m[k] = v; it->Next(); }
  for (auto& kv : m) r += Fmt("%zu:%zu:", kv.first.size(), kv.second.size()) + kv.first + kv.second;
  return r;
}
typedef std::map<std::string, std::string> SMap;
static std::string Canon(const Status& s) { return Fmt("#%d", SC(s)); }
static std::string Canon(const std::pair<Status, std::string>& p) { return Canon(p.first) + (p.first == Status::SUCCESS ? ":" + p.second : ""); }
static std::string Canon(const std::pair<Status, int64_t>& p) { return Canon(p.first) + (p.first == Status::SUCCESS ? Fmt(":%lld", (long long)p.second) : ""); }
static std::string Canon(const std::pair<Status, std::pair<std::string, std::string>>& p) {
  return Canon(p.first) + (p.first == Status::SUCCESS ? Fmt(":%zu:", p.second.first.size()) + p.second.first + p.second.second : "");
}
static std::string Canon(const std::pair<Status, std::vector<std::string>>& p) { std::string r = Canon(p.first); for (auto& x : p.second) r += Fmt(":%zu:", x.size()) + x; return r; }
static std::string Canon(const std::pair<Status, SMap>& p) {
  std::string r = Canon(p.first);
  for (auto& x : p.second) r += Fmt(":%zu:", x.first.size()) + x.first + Fmt("=%zu:", x.second.size()) + x.second;
  return r;
}
// The result through StatusFuture's getters.
template <class T> static std::string Via(Ctx& c, std::future<T>&& f, T (StatusFuture::*get)(), Rng& g, bool ready) {
  StatusFuture a(std::move(f));
  StatusFuture sf(std::move(a));
  if (sf.GetExtraType() != typeid(T)) c.Fail("future-type", "GetExtraType gives another type");
  if (g.P(50)) { if (!sf.Wait(g.P(50) ? -1 : 100)) c.Fail("future-wait", "Wait timed out"); if (!sf.Wait(0)) c.Fail("future-wait", "Wait(0) of a finished operation is false"); }
  else if (ready && !sf.Wait(0)) c.Fail("future-wait", "Wait(0) of a finished operation is false");
  if (typeid(T) != typeid(Status) && g.P(30) && sf.Get() == Status::SUCCESS) c.Fail("future-wrong", "Get of another type is a success");
  if (typeid(T) != typeid(std::pair<Status, int64_t>) && g.P(30) && sf.GetInteger().first == Status::SUCCESS) c.Fail("future-wrong", "GetInteger of another type is a success");
  if (typeid(T) != typeid(std::pair<Status, std::string>) && g.P(30) && sf.GetString().first == Status::SUCCESS) c.Fail("future-wrong", "GetString of another type is a success");
  if (typeid(T) != typeid(std::pair<Status, SMap>) && g.P(30) && sf.GetStringMap().first == Status::SUCCESS) c.Fail("future-wrong", "GetStringMap of another type is a success");
  T r = (sf.*get)();
  if (g.P(30)) { T r2 = (sf.*get)(); if (Canon(r2).substr(0, 2) == "#0") c.Fail("future-twice", "the result is given twice"); }
  return Canon(r);
}
template <class T> static std::function<std::string(bool)> Getter(Ctx& c, Rng& g, std::future<T>&& f, T (StatusFuture::*get)()) {
  auto p = std::make_shared<std::future<T>>(std::move(f));
  if (g.P(50)) return [p](bool) { return Canon(p->get()); };
  return [p, get, &c, &g](bool ready) { return Via<T>(c, std::move(*p), get, g, ready); };
}
struct AProc : AsyncDBM::RecordProcessor {
  int action = 0; std::string nv; std::string seen; int calls = 0, st_calls = 0, code = -1;
  std::string_view Ret() { return action == 0 ? NOOP : action == 1 ? REMOVE : std::string_view(nv); }
  std::string_view ProcessFull(std::string_view k, std::string_view v) override { calls++; seen += "F" + std::string(k) + "=" + std::string(v) + ";"; return Ret(); }
  std::string_view ProcessEmpty(std::string_view k) override { calls++; if (k.data() != NOOP.data()) seen += "E" + std::string(k) + ";"; else seen += "_"; return Ret(); }
  void ProcessStatus(const Status& s) override { st_calls++; code = SC(s); }
  std::string Canon() { return Fmt("calls %d seen %s", calls, seen.c_str()); }
};
struct FProc : DBM::FileProcessor { std::atomic<int>* n; std::string* path; FProc(std::atomic<int>* n, std::string* p) : n(n), path(p) {} void Process(const std::string& p) override { (*n)++; *path = p; } };
struct Post : AsyncDBM::CommonPostprocessor {
  struct Sink { std::mutex mu; std::vector<std::pair<std::string, int>> ev; int destroyed = 0; };
  std::shared_ptr<Sink> s;
  explicit Post(std::shared_ptr<Sink> s) : s(s) {}
  ~Post() override { std::lock_guard<std::mutex> l(s->mu); s->destroyed++; }
  void Postprocess(const char* name, const Status& st) override { std::lock_guard<std::mutex> l(s->mu); s->ev.emplace_back(name, SC(st)); }
};

// One worker: the operations take effect in the order of the calls and give what the synchronous calls give.
static void Sequential(Ctx& c, Rng& g) {
  AnyOpt ao;
  ao.orders = false; ao.small = g.P(50);
  AnyDB a = AnyDB::Make(g, c.dir, ao);
  if (a.fc.block > 0) { a.fc.block = 0; a.fc.options = 0; }
  AnyDB a2 = a;
  a2.path = c.Path("twin" + a.path.substr(a.path.rfind('.')));
  const bool readonly = a.bound && g.P(8);
  Describe(c, Fmt("sequential readonly=%d ", readonly) + a.desc);
  c.Sig(c.desc);
  auto d = a.New(), t = a2.New();
  VCHECK(c, a.Open(d.get()) == Status::SUCCESS && a2.Open(t.get()) == Status::SUCCESS, "open", "fails");
  KeyGen kg = KeyGen::Make(g, a.order, (int)g.Pick({4, 20, 100}));
  ValGen vg(g);
  for (int i = (int)g.U(30); i-- > 0;) { std::string k = kg(g), v = vg(g); d->Set(k, v); t->Set(k, v); }
  if (readonly) {
    VCHECK(c, a.Close(d.get()) == Status::SUCCESS && a2.Close(t.get()) == Status::SUCCESS, "close", "fails");
    VCHECK(c, a.Open(d.get(), false) == Status::SUCCESS && a2.Open(t.get(), false) == Status::SUCCESS, "open", "fails");
  }
  auto sink = std::make_shared<Post::Sink>();
  std::vector<std::pair<std::string, int>> want_ev;
  struct Pending { std::string what, want; std::function<std::string(bool)> get; };
  std::vector<Pending> pend;
  const bool post = g.P(70), lambda_post = g.P(30);
  int nfiles = 0;
  std::vector<std::unique_ptr<DBM>> dests;
  std::vector<std::unique_ptr<File>> files;
  std::vector<std::pair<DBM*, DBM*>> exports;
  std::vector<std::pair<std::string, std::string>> flats;
  std::list<std::atomic<int>> syncs;
  std::list<std::string> sync_paths;
  std::atomic<int> lambda_calls{0}, want_lambda{0};
  {
    AsyncDBM as(d.get(), 1);
    if (post && !lambda_post) as.SetCommonPostprocessor(std::make_unique<Post>(sink));
    if (post && lambda_post) as.SetCommonPostprocessor([sink](const char* n, const Status& s) { std::lock_guard<std::mutex> l(sink->mu); sink->ev.emplace_back(n, SC(s)); });
    std::unique_ptr<std::atomic<bool>> gate(new std::atomic<bool>(true));
    const int nops = (int)g.Pick({5, 30, 120});
    for (int i = 0; i < nops; i++) {
      Eph e;
      const std::string k = kg(g), v = vg(g);
      Pending p;
      const char* name = "";
      int code = 0;
      if (g.P(3)) as.GetTaskQueue()->Add([] { std::this_thread::sleep_for(std::chrono::microseconds(300)); });
      switch (g.U(27)) {
        case 0: case 1: { name = "Get"; std::string x; Status s = t->Get(k, &x); code = SC(s); p.want = Canon(std::make_pair(s, x)); p.get = Getter(c, g, as.Get(e(k)), &StatusFuture::GetString); break; }
        case 2: {
          name = "GetMulti"; std::vector<std::string> ks{k, kg(g), kg(g)}; SMap r; Status s = t->GetMulti(ks, &r); code = SC(s); p.want = Canon(std::make_pair(s, r));
          std::vector<std::string_view> vs; for (auto& x : ks) vs.push_back(e(x));
          p.get = g.P(50) ? Getter(c, g, as.GetMulti(vs), &StatusFuture::GetStringMap) : Getter(c, g, as.GetMulti(std::vector<std::string>(ks)), &StatusFuture::GetStringMap); break;
        }
        case 3: case 4: case 5: { name = "Set"; const bool ow = g.P(70); Status s = t->Set(k, v, ow); code = SC(s); p.want = Canon(s); p.get = Getter(c, g, ow && g.P(50) ? as.Set(e(k), e(v)) : as.Set(e(k), e(v), ow), &StatusFuture::Get); break; }
        case 6: {
          name = "SetMulti"; SMap r{{k, v}, {kg(g), vg(g)}, {kg(g), vg(g)}}; const bool ow = g.P(70); Status s = t->SetMulti(r, ow); code = SC(s); p.want = Canon(s);
          std::map<std::string_view, std::string_view> mv; for (auto& x : r) mv.emplace(e(x.first), e(x.second));
          p.get = g.P(50) ? Getter(c, g, as.SetMulti(mv, ow), &StatusFuture::Get) : Getter(c, g, as.SetMulti(SMap(r), ow), &StatusFuture::Get); break;
        }
        case 7: { name = "Remove"; Status s = t->Remove(k); code = SC(s); p.want = Canon(s); p.get = Getter(c, g, as.Remove(e(k)), &StatusFuture::Get); break; }
        case 8: {
          name = "RemoveMulti"; std::vector<std::string> ks{k, kg(g)}; Status s = t->RemoveMulti(ks); code = SC(s); p.want = Canon(s);
          std::vector<std::string_view> vs; for (auto& x : ks) vs.push_back(e(x));
          p.get = g.P(50) ? Getter(c, g, as.RemoveMulti(vs), &StatusFuture::Get) : Getter(c, g, as.RemoveMulti(std::vector<std::string>(ks)), &StatusFuture::Get); break;
        }
        case 9: case 10: { name = "Append"; const std::string dl = g.P(50) ? "" : "::"; Status s = t->Append(k, v, dl); code = SC(s); p.want = Canon(s); p.get = Getter(c, g, as.Append(e(k), e(v), e(dl)), &StatusFuture::Get); break; }
        case 11: {
          name = "AppendMulti"; SMap r{{k, v}, {kg(g), vg(g)}}; const std::string dl = g.P(50) ? "" : "::"; Status s = t->AppendMulti(r, dl); code = SC(s); p.want = Canon(s);
          std::map<std::string_view, std::string_view> mv; for (auto& x : r) mv.emplace(e(x.first), e(x.second));
          p.get = g.P(50) ? Getter(c, g, as.AppendMulti(mv, e(dl)), &StatusFuture::Get) : Getter(c, g, as.AppendMulti(SMap(r), dl), &StatusFuture::Get); break;
        }
        case 12: case 13: {
          name = "CompareExchange"; const int ek = (int)g.U(4), dk = (int)g.U(4); std::string ev;
          if (g.P(70)) t->Get(k, &ev); else ev = vg(g);
          std::string_view ex = ek == 0 ? std::string_view() : ek == 1 ? DBM::ANY_DATA : std::string_view(ev), de = dk == 0 ? std::string_view() : dk == 1 ? DBM::ANY_DATA : std::string_view(v);
          Status s = t->CompareExchange(k, ex, de); code = SC(s); p.want = Canon(s); p.get = Getter(c, g, as.CompareExchange(e(k), e(ex), e(de)), &StatusFuture::Get);
          p.what = Fmt("(%d,%d)", ek, dk); break;
        }
        case 14: {
          name = "CompareExchangeMulti"; std::list<std::string> st; std::vector<std::pair<std::string_view, std::string_view>> ex, de, ex2, de2;
          for (int j = (int)g.U(4); j-- > 0;) {
            st.push_back(kg(g)); std::string_view kk = st.back(); std::string cur; const bool has = t->Get(kk, &cur) == Status::SUCCESS;
            st.push_back(cur); std::string_view vv = !has ? std::string_view() : g.P(20) ? DBM::ANY_DATA : std::string_view(st.back()); if (g.P(8)) vv = std::string_view();
            ex.emplace_back(kk, vv);
          }
          for (int j = (int)g.U(4); j-- > 0;) { st.push_back(kg(g)); std::string_view kk = st.back(); st.push_back(vg(g)); de.emplace_back(kk, g.P(30) ? std::string_view() : std::string_view(st.back())); }
          Status s = t->CompareExchangeMulti(ex, de); code = SC(s); p.want = Canon(s);
          for (auto& x : ex) ex2.emplace_back(e(x.first), e(x.second));
          for (auto& x : de) de2.emplace_back(e(x.first), e(x.second));
          p.get = Getter(c, g, as.CompareExchangeMulti(ex2, de2), &StatusFuture::Get); break;
        }
        case 15: { name = "Increment"; const std::string ck = Fmt("cnt%d", (int)g.U(3)); const int64_t inc = g.P(10) ? INT64_MIN : g.R(-50, 50), init = g.R(-3, 3); int64_t cur = 0; Status s = t->Increment(ck, inc, &cur, init); code = SC(s);
          p.want = Canon(std::make_pair(s, cur)); p.get = Getter(c, g, as.Increment(e(ck), inc, init), &StatusFuture::GetInteger); break; }
        case 16: { name = "Rekey"; const std::string nk = kg(g); const bool ow = g.P(60), cp = g.P(30); Status s = t->Rekey(k, nk, ow, cp); code = SC(s); p.want = Canon(s); p.get = Getter(c, g, as.Rekey(e(k), e(nk), ow, cp), &StatusFuture::Get); break; }
        case 17: { name = "PopFirst"; std::string x, y; Status s = t->PopFirst(&x, &y); code = SC(s); p.want = Canon(std::make_pair(s, std::make_pair(x, y))); p.get = Getter(c, g, as.PopFirst(), &StatusFuture::GetStringPair); break; }
        case 18: { name = "PushLast"; const double w = 1000.0 + (double)g.U(50); Status s = t->PushLast(v, w); code = SC(s); p.want = Canon(s); p.get = Getter(c, g, as.PushLast(e(v), w), &StatusFuture::Get); break; }
        case 19: {  // Process
          name = "Process"; const bool wr = g.P(80); auto pr = std::make_unique<AProc>(); AProc q; pr->action = q.action = wr ? (int)g.U(3) : 0; pr->nv = q.nv = v;
          Status s = t->Process(k, &q, wr); code = SC(s);
          if (g.P(60)) {
            p.want = Canon(s) + q.Canon();
            auto f = std::make_shared<std::future<std::pair<Status, std::unique_ptr<AProc>>>>(as.Process(e(k), std::move(pr), wr));
            p.get = [f, &c](bool) { auto r = f->get(); if (r.second->st_calls != 1 || r.second->code != SC(r.first)) c.Fail("process-status", "ProcessStatus"); return Canon(r.first) + r.second->Canon(); };
          } else {
            p.want = Canon(s);
            want_lambda += q.calls;
            p.get = Getter(c, g, as.Process(e(k), [&lambda_calls, v, act = q.action](std::string_view, std::string_view) -> std::string_view { lambda_calls++; return act == 0 ? DBM::RecordProcessor::NOOP : act == 1 ? DBM::RecordProcessor::REMOVE : std::string_view(v); }, wr), &StatusFuture::Get);
          }
          break;
        }
        case 20: {
          name = "ProcessFirst"; const bool wr = g.P(60); auto pr = std::make_unique<AProc>(); AProc q; pr->action = q.action = wr ? (int)g.U(3) : 0; pr->nv = q.nv = v;
          Status s = t->ProcessFirst(&q, wr); code = SC(s);
          if (g.P(60)) {
            p.want = Canon(s) + q.Canon();
            auto f = std::make_shared<std::future<std::pair<Status, std::unique_ptr<AProc>>>>(as.ProcessFirst(std::move(pr), wr));
            p.get = [f, &c](bool) { auto r = f->get(); if (r.second->st_calls != 1 || r.second->code != SC(r.first)) c.Fail("process-status", "ProcessStatus"); return Canon(r.first) + r.second->Canon(); };
          } else {
            p.want = Canon(s);
            want_lambda += q.calls;
            p.get = Getter(c, g, as.ProcessFirst([&lambda_calls, v, act = q.action](std::string_view, std::string_view) -> std::string_view { lambda_calls++; return act == 0 ? DBM::RecordProcessor::NOOP : act == 1 ? DBM::RecordProcessor::REMOVE : std::string_view(v); }, wr), &StatusFuture::Get);
          }
          break;
        }
        case 21: {
          name = "ProcessMulti"; const bool wr = g.P(80); const int n = (int)g.R(1, 4);
          std::vector<AProc> qs(n); std::vector<std::shared_ptr<AProc>> ps; std::vector<std::string> ks;
          std::vector<std::pair<std::string_view, DBM::RecordProcessor*>> kp; std::vector<std::pair<std::string_view, std::shared_ptr<AProc>>> kp2; std::vector<std::pair<std::string_view, DBM::RecordLambdaType>> kl;
          for (int j = 0; j < n; j++) ks.push_back(kg(g));
          for (int j = 0; j < n; j++) { qs[j].action = wr ? (int)g.U(3) : 0; qs[j].nv = vg(g); ps.push_back(std::make_shared<AProc>(qs[j])); kp.emplace_back(ks[j], &qs[j]); kp2.emplace_back(e(ks[j]), ps[j]);
            kl.emplace_back(e(ks[j]), [&lambda_calls, nv = qs[j].nv, act = qs[j].action](std::string_view, std::string_view) -> std::string_view { lambda_calls++; return act == 0 ? DBM::RecordProcessor::NOOP : act == 1 ? DBM::RecordProcessor::REMOVE : std::string_view(nv); }); }
          Status s = t->ProcessMulti(kp, wr); code = SC(s); p.want = Canon(s);
          if (g.P(60)) {
            for (auto& q : qs) p.want += q.Canon();
            auto f = std::make_shared<std::future<std::pair<Status, std::vector<std::shared_ptr<AProc>>>>>(as.ProcessMulti(kp2, wr));
            p.get = [f, &c](bool) { auto r = f->get(); std::string o = Canon(r.first); for (auto& x : r.second) { o += x->Canon(); if (x->st_calls != 1 || x->code != SC(r.first)) c.Fail("process-status", "ProcessStatus"); } return o; };
          } else { for (auto& q : qs) want_lambda += q.calls; p.get = Getter(c, g, as.ProcessMulti(kl, wr), &StatusFuture::Get); }
          break;
        }
        case 22: {
          if (g.P(50)) continue;
          name = "ProcessEach"; const bool wr = g.P(50); auto pr = std::make_unique<AProc>(); AProc q; pr->action = q.action = wr && g.P(30) ? 2 : 0; pr->nv = q.nv = "E" + v.substr(0, 20);
          Status s = t->ProcessEach(&q, wr); code = SC(s);
          if (g.P(60)) {
            p.want = Canon(s) + q.Canon();
            auto f = std::make_shared<std::future<std::pair<Status, std::unique_ptr<AProc>>>>(as.ProcessEach(std::move(pr), wr));
            p.get = [f, &c](bool) { auto r = f->get(); if (r.second->st_calls != 1 || r.second->code != SC(r.first)) c.Fail("process-status", "ProcessStatus"); return Canon(r.first) + r.second->Canon(); };
          } else {
            p.want = Canon(s);
            want_lambda += q.calls;
            p.get = Getter(c, g, as.ProcessEach([&lambda_calls, nv = q.nv, act = q.action](std::string_view, std::string_view) -> std::string_view { lambda_calls++; return act == 0 ? DBM::RecordProcessor::NOOP : std::string_view(nv); }, wr), &StatusFuture::Get);
          }
          break;
        }
        case 23: { if (!g.P(15)) continue; name = "Clear"; Status s = t->Clear(); code = SC(s); p.want = Canon(s); p.get = Getter(c, g, as.Clear(), &StatusFuture::Get); break; }
        case 24: {
          if (!g.P(40)) continue;
          std::map<std::string, std::string> ps; if (g.P(50) && (a.inner == "HashDBM" || a.inner == "TreeDBM")) ps["num_buckets"] = "17";
          name = "Rebuild"; auto* pd = dynamic_cast<ParamDBM*>(t.get()); Status s = pd ? pd->RebuildAdvanced(ps) : t->Rebuild(); code = SC(s); p.want = Canon(s); p.get = Getter(c, g, as.Rebuild(ps), &StatusFuture::Get); break;
        }
        case 25: {
          if (!g.P(50)) continue;
          if (g.P(50)) {
            name = "Synchronize"; std::atomic<int> n1{0}; std::string pa; FProc f1(&n1, &pa); const bool withp = g.P(60);
            auto* pd = dynamic_cast<ParamDBM*>(t.get());
            Status s = pd ? pd->SynchronizeAdvanced(false, withp ? &f1 : nullptr, {}) : t->Synchronize(false, withp ? &f1 : nullptr); code = SC(s); p.want = Canon(s) + Fmt("/%d", n1.load());
            syncs.emplace_back(0); sync_paths.emplace_back(); auto* n2 = &syncs.back();
            auto gt = Getter(c, g, as.Synchronize(false, withp ? std::make_unique<FProc>(n2, &sync_paths.back()) : nullptr), &StatusFuture::Get);
            p.get = [gt, n2](bool r) { std::string x = gt(r); return x + Fmt("/%d", n2->load()); };
          } else {
            if (!a.bound || a.cls == "ShardDBM") continue;
            name = "CopyFileData"; const std::string c1 = c.Path(Fmt("copy%d", nfiles)), c2 = c.Path(Fmt("copy%d.twin", nfiles)); nfiles++;
            Status s = t->CopyFileData(c2, false); code = SC(s); p.want = Canon(s); p.get = Getter(c, g, as.CopyFileData(std::string(c1)), &StatusFuture::Get);
            if (s == Status::SUCCESS) { auto g0 = p.get; p.get = [g0, c1](bool r) { std::string x = g0(r); if (!PathIsFile(c1)) x += "/nofile"; return x; }; }
          }
          break;
        }
        default: {
          const int w = (int)g.U(4);
          if (w == 0) { name = "Export"; dests.emplace_back(new TinyDBM()); DBM* x = dests.back().get(); dests.emplace_back(new TinyDBM()); DBM* y = dests.back().get(); Status s = t->Export(x); code = SC(s); p.want = Canon(s) + Dump(x);
            auto gt = Getter(c, g, as.Export(y), &StatusFuture::Get); p.get = [gt, y](bool r) { std::string o = gt(r); return o + Dump(y); }; }
          else if (w == 1) {
            name = ""; const std::string f1 = c.Path(Fmt("flat%d", nfiles)), f2 = c.Path(Fmt("flat%d.twin", nfiles)); nfiles++;
            files.emplace_back(new StdFile()); File* x = files.back().get(); files.emplace_back(new StdFile()); File* y = files.back().get();
            VCHECK(c, x->Open(f2, true) == Status::SUCCESS && y->Open(f1, true) == Status::SUCCESS, "open", "flat file");
            Status s = ExportDBMToFlatRecords(t.get(), x); code = SC(s);
            int64_t n = x->GetSizeSimple(); p.want = Canon(s) + Fmt("/%lld", (long long)n);
            auto gt = Getter(c, g, as.ExportToFlatRecords(y), &StatusFuture::Get); p.get = [gt, y](bool r) { std::string o = gt(r); return o + Fmt("/%lld", (long long)y->GetSizeSimple()); };
            if (s == Status::SUCCESS && g.P(60)) {
              if (post) want_ev.emplace_back("", code);
              pend.push_back(std::move(p)); p = Pending();
              Status s2 = ImportDBMFromFlatRecords(t.get(), x); code = SC(s2); p.want = Canon(s2); p.get = Getter(c, g, as.ImportFromFlatRecords(y), &StatusFuture::Get);
            }
          } else {
            name = "SearchModal"; const std::string mode = g.Pick<std::string>({"contain", "begin", "end", "regex", "edit", "nothing", "containcase"}); const std::string pat = g.P(50) ? "a" : k.substr(0, 2); const size_t cap = g.U(4);
            if (mode == "regex" ) { std::vector<std::string> r; Status s = SearchDBMModal(t.get(), mode, "[a-c]+", &r, cap); code = SC(s); p.want = Canon(std::make_pair(s, r)); p.get = Getter(c, g, as.SearchModal(e(mode), e("[a-c]+"), cap), &StatusFuture::GetStringVector); }
            else { std::vector<std::string> r; Status s = SearchDBMModal(t.get(), mode, pat, &r, cap); code = SC(s); p.want = Canon(std::make_pair(s, r)); p.get = Getter(c, g, as.SearchModal(e(mode), e(pat), cap), &StatusFuture::GetStringVector); }
          }
        }
      }
      p.what = name + p.what;
      c.T(Fmt("%s(%s) want %s", p.what.c_str(), Show(k, 10).c_str(), Show(p.want, 30).c_str()));
      c.Stat(Fmt("op.%s", name));
      c.Eval(HashStr(p.what + p.want));
      want_ev.emplace_back(name, code);
      pend.push_back(std::move(p));
      if (g.P(4) && !pend.empty()) {  // wait for the last operation: everything before has been done too
        const size_t n = pend.size() - 1;
        if (pend[n].get) { std::string got = pend[n].get(false); VCHECK(c, got == pend[n].want, "result", "%s gives %s, the synchronous call %s", pend[n].what.c_str(), Show(got, 80).c_str(), Show(pend[n].want, 80).c_str()); pend[n].get = nullptr; }
      }
      if (g.P(4)) for (auto& q : pend) if (q.get && g.P(50)) {
        std::string got = q.get(false);
        VCHECK(c, got == q.want, "result", "%s gives %s, the synchronous call %s", q.what.c_str(), Show(got, 80).c_str(), Show(q.want, 80).c_str());
        q.get = nullptr;
      }
      // Forgotten futures.
      if (g.P(5)) pend[g.U(pend.size())].get = nullptr;
    }
  }
  for (auto& q : pend) if (q.get) {
    std::string got = q.get(true);
    VCHECK(c, got == q.want, "result", "%s gives %s, the synchronous call %s", q.what.c_str(), Show(got, 80).c_str(), Show(q.want, 80).c_str());
  }
  VCHECK(c, lambda_calls == want_lambda, "lambda-calls", "lambda processors called %d times, %d in the synchronous calls", lambda_calls.load(), want_lambda.load());
  std::string x = Dump(d.get()), y = Dump(t.get());
  VCHECK(c, x == y, "content", "the content differs from that of the synchronous calls");
  if (post) {
    VCHECK(c, sink->ev.size() == want_ev.size(), "postproc-count", "the postprocessor was called %zu times for %zu operations", sink->ev.size(), want_ev.size());
    for (size_t i = 0; i < want_ev.size(); i++)
      VCHECK(c, sink->ev[i].second == want_ev[i].second && (want_ev[i].first.empty() || sink->ev[i].first == want_ev[i].first), "postproc", "call %zu of the postprocessor got (%s,%d), want (%s,%d)", i, sink->ev[i].first.c_str(), sink->ev[i].second, want_ev[i].first.c_str(), want_ev[i].second);
    c.Stat("postprocessed", (int64_t)want_ev.size());
  }
  if (post && !lambda_post) VCHECK(c, sink->destroyed == 1, "postproc-leak", "the postprocessor was destroyed %d times", sink->destroyed);
  c.Reach("sequential " + a.cls);
  for (auto& f : files) f->Close();
  a.Close(d.get()); a2.Close(t.get());
  c.nontrivial = pend.size() > 3;
}

static bool Apply(const KOp& o, Linz::St* s) {
  const int OK = Status::SUCCESS, NF = Status::NOT_FOUND_ERROR, DUP = Status::DUPLICATION_ERROR, INF = Status::INFEASIBLE_ERROR;
  switch (o.kind) {
    case KOp::GET: return o.code == (s->present ? OK : NF) && (!s->present || o.out == s->v);
    case KOp::SET: if (o.code != OK) return false; s->present = true; s->v = o.arg; return true;
    case KOp::SETNX: if (s->present) return o.code == DUP; if (o.code != OK) return false; s->present = true; s->v = o.arg; return true;
    case KOp::REMOVE: if (o.code != (s->present ? OK : NF)) return false; s->present = false; s->v.clear(); return true;
    case KOp::APPEND: if (o.code != OK) return false; s->v = s->present ? s->v + o.exp + o.arg : o.arg; s->present = true; return true;
    case KOp::CAS: {
      const bool met = o.exp_null ? !s->present : s->present && (o.exp_any || s->v == o.exp);
      if (o.code != (met ? OK : INF)) return false;
      if (!met || o.arg_any) return true;
      if (o.arg_null) { s->present = false; s->v.clear(); } else { s->present = true; s->v = o.arg; }
      return true;
    }
    case KOp::INC: {
      if (o.code != OK) return false;
      int64_t cur = o.inc_init;
      if (s->present) { cur = 0; for (unsigned char ch : s->v) cur = (int64_t)((uint64_t)cur << 8 | ch); }
      cur += o.inc;
      if (o.num != cur) return false;
      s->present = true; s->v = BE8(cur); return true;
    }
    case KOp::PROC: {
      if (o.code != OK || o.has != s->present || (o.has && o.out != s->v)) return false;
      s->present = true; s->v = o.arg; return true;
    }
    default: return false;
  }
}
static void Parallel(Ctx& c, Rng& g) {
  AnyOpt ao;
  ao.orders = false; ao.padding = false; ao.compress = false;
  AnyDB a = AnyDB::Make(g, c.dir, ao);
  if (a.fc.kind < 2) a.fc.kind += 2;
  if (a.cls != a.inner) { a.params.clear(); a.MakeParams(); }
  const int workers = (int)g.R(2, 6), clients = (int)g.R(1, 4), nkeys = (int)g.Pick({1, 2, 4}), nops = (int)g.Pick({15, 50, 120});
  const int style = (int)g.U(3), swap_post = (int)g.U(3);
  Describe(c, Fmt("parallel workers=%d clients=%d keys=%d ops=%d style=%d ", workers, clients, nkeys, nops, style) + a.desc);
  c.Sig(c.desc);
  auto d = a.New();
  VCHECK(c, a.Open(d.get()) == Status::SUCCESS, "open", "fails");
  std::vector<std::vector<KOp>> hist(nkeys);
  std::mutex hmu;
  auto sink = std::make_shared<Post::Sink>();
  std::atomic<int64_t> submitted{0}, multi{0}, tokens{0};
  const int window = (int)g.Pick({1, 3, 8, 20});
  {
    AsyncDBM as(d.get(), workers);
    if (swap_post) as.SetCommonPostprocessor(std::make_unique<Post>(sink));
    std::vector<std::thread> th;
    for (int t = 0; t < clients; t++) th.emplace_back([&, t, seed = g.Next()] {
      Rng r(seed);
      struct P { KOp o[2]; int k[2]; int n = 1; std::function<void(P&)> fin; };
      std::deque<std::unique_ptr<P>> q;
      auto drain = [&](size_t keep) {
        while (q.size() > keep) {
          const size_t ix = r.P(70) ? 0 : r.U(q.size());
          auto p = std::move(q[ix]); q.erase(q.begin() + ix);
          p->fin(*p);
          const int64_t t1 = NowNs();
          std::lock_guard<std::mutex> l(hmu);
          for (int i = 0; i < p->n; i++) { p->o[i].t1 = t1; hist[p->k[i]].push_back(p->o[i]); }
        }
      };
      for (int i = 0; i < nops; i++) {
        auto p = std::make_unique<P>();
        const int kx = (int)r.U(nkeys);
        const std::string key = Fmt("k%d", kx), val = Fmt("%d.%d,", t, i);
        p->k[0] = kx;
        KOp& o = p->o[0];
        o.thread = t;
        o.arg = val;
        Eph e;
        submitted++;
        const int x = (int)r.U(100);
        if (style == 1) o.kind = x < 75 ? KOp::INC : x < 92 ? KOp::GET : KOp::REMOVE;
        else if (style == 2) o.kind = x < 60 ? KOp::APPEND : x < 75 ? KOp::GET : x < 85 ? KOp::REMOVE : KOp::PROC;
        else o.kind = x < 20 ? KOp::GET : x < 40 ? KOp::SET : x < 50 ? KOp::SETNX : x < 65 ? KOp::REMOVE : x < 75 ? KOp::APPEND : x < 88 ? KOp::CAS : KOp::PROC;
        o.t0 = NowNs();
        auto st = [&](std::future<Status>&& f) { auto s = std::make_shared<std::future<Status>>(std::move(f)); p->fin = [s](P& p) { const int code = SC(s->get()); for (int i = 0; i < p.n; i++) p.o[i].code = code; }; };
        const bool two = r.P(25) && nkeys > 1;
        std::string key2;
        if (two && (o.kind == KOp::GET || o.kind == KOp::SET || o.kind == KOp::APPEND)) {
          p->n = 2; p->k[1] = (kx + 1) % nkeys; key2 = Fmt("k%d", p->k[1]); p->o[1] = o; p->o[1].arg = val + "b"; multi++;
        }
        switch (o.kind) {
          case KOp::GET:
            if (p->n == 2) {
              auto s = std::make_shared<std::future<std::pair<Status, SMap>>>(as.GetMulti(std::vector<std::string_view>{e(key), e(key2)}));
              p->fin = [s, key, key2](P& p) { auto r = s->get(); const std::string* ks[2] = {&key, &key2}; for (int i = 0; i < 2; i++) { auto it = r.second.find(*ks[i]); p.o[i].code = it == r.second.end() ? (r.first == Status::SUCCESS ? 99 : SC(r.first)) : 0; if (it != r.second.end()) p.o[i].out = it->second; } };
            } else { auto s = std::make_shared<std::future<std::pair<Status, std::string>>>(as.Get(e(key))); p->fin = [s](P& p) { auto r = s->get(); p.o[0].code = SC(r.first); p.o[0].out = r.second; }; }
            break;
          case KOp::SET: if (p->n == 2) st(as.SetMulti(std::map<std::string_view, std::string_view>{{e(key), e(val)}, {e(key2), e(p->o[1].arg)}})); else st(as.Set(e(key), e(val))); break;
          case KOp::SETNX: st(as.Set(e(key), e(val), false)); break;
          case KOp::REMOVE: st(as.Remove(e(key))); break;
          case KOp::APPEND: o.exp = p->o[1].exp = r.P(50) ? "" : "|"; if (p->n == 2) st(as.AppendMulti(std::map<std::string_view, std::string_view>{{e(key), e(val)}, {e(key2), e(p->o[1].arg)}}, e(o.exp))); else st(as.Append(e(key), e(val), e(o.exp))); break;
          case KOp::CAS: {
            const int m = (int)r.U(4), m2 = (int)r.U(5);
            std::string_view ex, de;
            if (m == 0) o.exp_null = true; else if (m == 1) { o.exp_any = true; ex = DBM::ANY_DATA; } else { std::string cur; d->Get(key, &cur); o.exp = cur; ex = o.exp; if (!ex.data()) ex = ""; }
            if (m2 == 0) o.arg_null = true; else if (m2 == 1) { o.arg_any = true; de = DBM::ANY_DATA; } else de = o.arg;
            o.t0 = NowNs();
            st(as.CompareExchange(e(key), e(ex), e(de))); break;
          }
          case KOp::INC: { o.inc = r.R(-3, 9); auto s = std::make_shared<std::future<std::pair<Status, int64_t>>>(as.Increment(e(key), o.inc, 0)); p->fin = [s](P& p) { auto r = s->get(); p.o[0].code = SC(r.first); p.o[0].num = r.second; }; break; }
          default: {
            auto pr = std::make_unique<AProc>(); pr->action = 2; pr->nv = val;
            auto s = std::make_shared<std::future<std::pair<Status, std::unique_ptr<AProc>>>>(as.Process(e(key), std::move(pr), true));
            p->fin = [s, key](P& p) { auto r = s->get(); p.o[0].code = SC(r.first); if (r.second->calls != 1 || r.second->st_calls != 1) p.o[0].code = 98; p.o[0].has = r.second->seen[0] == 'F'; if (p.o[0].has) p.o[0].out = r.second->seen.substr(key.size() + 2, r.second->seen.size() - key.size() - 3); };
          }
        }
        q.push_back(std::move(p));
        drain(window);
        // Forgotten futures: the operation must be done all the same.
        if (r.P(20)) { Eph e2; const int64_t n = tokens++; as.Append(e2(Fmt("tok%d", (int)(n % 3))), e2(Fmt("<%lld>", (long long)n)), e2("")); submitted++; }
      }
      if (t == 0 && r.P(50)) return drain(0);
      drain(0);
    });
    for (auto& x : th) x.join();
  }
  int64_t ntok = 0;
  for (int i = 0; i < 3; i++) {
    std::string v = d->GetSimple(Fmt("tok%d", i));
    std::set<int64_t> seen;
    for (size_t p = 0; p < v.size();) {
      const size_t q = v.find('>', p);
      VCHECK(c, v[p] == '<' && q != std::string::npos, "token", "broken value %s", Show(v).c_str());
      const int64_t n = atoll(v.substr(p + 1, q - p - 1).c_str());
      VCHECK(c, n % 3 == i && n < tokens && seen.insert(n).second, "twice", "the operation %lld was done twice", (long long)n);
      ntok++;
      p = q + 1;
    }
  }
  VCHECK(c, ntok == tokens, "lost", "%lld of %lld operations whose futures were dropped have been done when the asynchronous adapter is destroyed", (long long)ntok, (long long)tokens.load());
  if (swap_post) {
    VCHECK(c, (int64_t)sink->ev.size() == submitted, "postproc-count", "the postprocessor was called %zu times for %lld operations", sink->ev.size(), (long long)submitted.load());
    c.Stat("postprocessed", submitted);
  }
  for (int k = 0; k < nkeys; k++) {
    // The final state is one more read.
    KOp f; f.kind = KOp::GET; f.t0 = NowNs(); f.code = SC(d->Get(Fmt("k%d", k), &f.out)); f.t1 = NowNs();
    hist[k].push_back(f);
    Linz l;
    std::string why;
    const int r = l.Check(hist[k], Linz::St(), Apply, &why, 300000);
    c.Stat("ops", (int64_t)hist[k].size());
    c.Stat(r < 0 ? "undecided" : "decided");
    c.Max("open", l.max_open);
    VCHECK(c, r != 0, "not-linearizable", "key k%d: %s", k, why.c_str());
    uint64_t sg = 0;
    for (auto& o : hist[k]) sg = Mix(sg ^ HashStr(o.out, o.kind * 7 + o.thread));
    c.Eval(sg);
  }
  c.Stat("multi", multi);
  c.Reach("parallel " + a.cls);
  a.Close(d.get());
  c.nontrivial = true;
}

static void Queue(Ctx& c, Rng& g) {
  const int mode = (int)g.U(4);
  Describe(c, Fmt("queue mode=%d", mode));
  c.Sig(c.desc);
  static std::atomic<int> live{0};
  struct Task : TaskQueue::Task {
    std::vector<std::atomic<int>>* runs; int ix; int us;
    Task(std::vector<std::atomic<int>>* r, int ix, int us) : runs(r), ix(ix), us(us) { live++; }
    ~Task() override { live--; }
    void Do() override { if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); (*runs)[ix]++; }
  };
  if (mode == 0) {  // starting and stopping never hangs and loses nothing
    TaskQueue q;
    const int rounds = (int)g.Pick({5, 10}), workers = (int)g.R(1, 8);
    for (int i = 0; i < rounds; i++) {
      const int n = (int)g.U(5);
      std::vector<std::atomic<int>> runs(n + 1);
      if (g.P(50)) { for (int j = 0; j < n; j++) q.Add(std::make_unique<Task>(&runs, j, 0)); VCHECK(c, q.GetSize() == n, "size", "GetSize %d of %d", q.GetSize(), n); q.Start(workers); }
      else { q.Start(workers); for (int j = 0; j < n; j++) q.Add(std::make_unique<Task>(&runs, j, 0)); }
      if (g.P(50)) std::this_thread::sleep_for(std::chrono::microseconds(g.U(100)));
      q.Stop(INT32_MAX);
      for (int j = 0; j < n; j++) VCHECK(c, runs[j] == 1, "task", "task %d ran %d times", j, runs[j].load());
      VCHECK(c, q.GetSize() == 0, "size", "GetSize %d after Stop", q.GetSize());
      c.Eval(Mix(n * 8 + workers));
    }
    VCHECK(c, live == 0, "leak", "%d tasks remain", live.load());
    c.Stat("start-stop", rounds);
  } else {
    const int workers = (int)g.R(1, 8), producers = (int)g.R(1, 5), per = (int)g.Pick({1, 20, 200}), slow = mode == 2 ? (int)g.Pick({500, 2000}) : g.P(30) ? (int)g.U(50) : 0;
    const bool timeout = mode == 2;
    const int n = producers * per;
    std::vector<std::atomic<int>> runs(n + 1), lruns(n + 1);
    std::vector<int> order;
    std::mutex omu;
    int done_at_stop = 0;
    {
      TaskQueue q;
      if (g.P(70)) q.Start(workers);
      else { q.Add([&] { lruns[n]++; }); q.Start(workers); }
      std::vector<std::thread> th;
      for (int t = 0; t < producers; t++) th.emplace_back([&, t, seed = g.Next()] {
        Rng r(seed);
        for (int i = 0; i < per; i++) {
          const int ix = t * per + i;
          if (r.P(50)) q.Add(std::make_unique<Task>(&runs, ix, slow));
          else q.Add([&, ix] { if (slow) std::this_thread::sleep_for(std::chrono::microseconds(slow)); if (workers == 1) { std::lock_guard<std::mutex> l(omu); order.push_back(ix); } runs[ix]++; });
          if (r.P(3)) std::this_thread::sleep_for(std::chrono::microseconds(r.U(200)));
        }
      });
      for (auto& x : th) x.join();
      const bool by_destructor = mode == 3 && !slow;
      if (by_destructor) {
        // The destructor waits for 0.1 s.
        const int64_t t0 = NowNs();
        while (q.GetSize() > 0 && NowNs() - t0 < 5000000000ll) std::this_thread::sleep_for(std::chrono::microseconds(50));
      } else {
        const double to = timeout ? 0.001 * (double)g.U(30) : 1e6;
        const double t0 = (double)NowNs() * 1e-9;
        q.Stop(to);
        const double el = (double)NowNs() * 1e-9 - t0;
        if (timeout) VCHECK(c, el < 60, "stop-time", "Stop(%g) took %g s", to, el);
        for (int i = 0; i < n; i++) done_at_stop += runs[i];
        if (timeout) { std::this_thread::sleep_for(std::chrono::milliseconds(2)); int again = 0; for (int i = 0; i < n; i++) again += runs[i]; VCHECK(c, again == done_at_stop, "after-stop", "%d tasks ran after Stop returned", again - done_at_stop); }
        c.Stat(done_at_stop == n ? "stopped-complete" : "stopped-early");
        if (timeout && done_at_stop < n && g.P(50)) {  // the remaining tasks are still there
          q.Start(workers);
          q.Stop(1e6);
          done_at_stop = n;
          for (int i = 0; i < n; i++) VCHECK(c, runs[i] == 1, "task", "task %d of %d ran %d times after the queue was started again", i, n, runs[i].load());
          c.Stat("restarted");
        }
      }
    }
    for (int i = 0; i < n; i++) VCHECK(c, runs[i] == 1 || (timeout && runs[i] == 0), "task", "task %d of %d ran %d times", i, n, runs[i].load());
    if (workers == 1) {
      std::map<int, int> last;
      for (int ix : order) { auto it = last.find(ix / per); VCHECK(c, it == last.end() || it->second < ix, "order", "tasks of one producer ran out of order with one worker"); last[ix / per] = ix; }
    }
    VCHECK(c, live == 0, "leak", "%d tasks remain", live.load());
    c.Stat("tasks", n);
    c.Eval(Mix(n * 64 + workers * 8 + mode));
  }
  c.Reach(Fmt("queue %d", mode));
  c.nontrivial = true;
}

static void Case(Ctx& c, Rng& g, int64_t n) {
  const int m = (int)g.U(20);
  if (m < 10) Sequential(c, g);
  else if (m < 16) Parallel(c, g);
  else Queue(c, g);
}
int main(int argc, char** argv) { return Main(argc, argv, "C21", Case); }
