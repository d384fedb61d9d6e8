// Runs random public-API scripts on a database and compares every result with the model.
#pragma once
#include "model.h"
#include "tkrzw_str_util.h"

namespace vh {

inline int SC(const Status& s) { return (int)s.GetCode(); }
inline std::string SS(const Status& s) { return tkrzw::ToString(s); }

struct ScriptOptions {
  int nops = 200;
  bool rebuild = true, clear = true, sync = true, reopen = true, iter_edit = true;
  int clear_w = 1, rebuild_w = 3, sync_w = 2, reopen_w = 3;
  int full_check_every = 60;
  bool each_order = true; // ProcessEach goes in the key order (not over shards)
  bool opened = true;     // bound to a file
  bool push_last = true;  // false where the comparator folds 8-byte binary keys together (PushLast would never find a free one)
  std::function<Status(Rng&, std::string*)> do_rebuild;               // default: dbm->Rebuild()
  std::function<DBM*(Rng&, std::string*)> do_reopen;                  // returns the database after reopening (may be a new object)
  std::function<void(Rng&)> extra;                                    // class specific checks, called now and then
  std::function<void(Rng&)> on_step;
};

class Script {
 public:
  Script(Ctx& c, Rng& g, DBM* d, Model& m, const KeyGen& kg, ValGen& vg, const ScriptOptions& o)
      : c(c), g(g), d(d), m(m), kg(kg), vg(vg), o(o) {}

  void Run() {
    for (int i = 0; i < o.nops; i++) {
      Step();
      if (o.on_step) o.on_step(g);
      if (o.full_check_every > 0 && (int)g.U(o.full_check_every) == 0) FullCheck("mid");
    }
    FullCheck("end");
  }

  // ---- helpers ----
  [[noreturn]] void Bad(const char* op, const std::string& msg) { c.Fail(std::string("mismatch:") + op, std::string(op) + ": " + msg); }
  void Expect(const char* op, const Status& got, int want) {
    c.Sig((uint64_t)(SC(got) * 131 + 7));
    if (SC(got) != want) Bad(op, Fmt("status %s, want %s", SS(got).c_str(), SS(Status((Status::Code)want)).c_str()));
  }
  static constexpr int OK = Status::SUCCESS, NF = Status::NOT_FOUND_ERROR, DUP = Status::DUPLICATION_ERROR, INF = Status::INFEASIBLE_ERROR;

  void Step() {
    const int w = (int)g.U(100);
    nstep++;
    if (w < 14) OpSet();
    else if (w < 22) OpGet();
    else if (w < 33) OpRemove();
    else if (w < 39) OpAppend();
    else if (w < 44) OpCompareExchange();
    else if (w < 48) OpIncrement();
    else if (w < 51) OpSetMulti();
    else if (w < 54) OpGetMulti();
    else if (w < 56) OpRemoveMulti();
    else if (w < 58) OpAppendMulti();
    else if (w < 63) OpProcessMulti();
    else if (w < 67) OpCompareExchangeMulti();
    else if (w < 71) OpRekey();
    else if (w < 74) OpProcessFirst();
    else if (w < 76) OpPopFirst();
    else if (w < 79) OpPushLast();
    else if (w < 80) OpProcessEach();
    else if (w < 86) OpProcess();
    else if (w < 89) OpSet(true);
    else if (w < 91) { if (o.iter_edit) OpIterEdit(); }
    else if (w < 92) OpCount();
    else {
      const int t = (int)g.U(40);
      if (t < o.sync_w) { if (o.sync) OpSync(); }
      else if (t < 2 + o.rebuild_w) { if (o.rebuild) OpRebuild(); }
      else if (t < 8 && t >= 8 - o.clear_w) { if (o.clear && g.P(40)) OpClear(); }
      else if (t < 8 + o.reopen_w) { if (o.reopen && o.do_reopen) OpReopen(); }
      else if (t < 13) { if (o.extra) o.extra(g); }
      else if (t < 15) OpMisc();
      else OpSet();
    }
  }

  void OpSet(bool churn = false) {
    const std::string& k = kg(g);
    std::string v = vg(g);
    if (churn) { if (auto* cur = m.Get(k)) { v = *cur; if (g.P(50) && !v.empty()) v.resize(g.U(v.size() + 1)); else v += g.Bytes(g.U(24)); } }
    const bool ow = g.P(80);
    const bool want_old = g.P(40);
    std::string old = "*";
    c.T(Fmt("Set(%s,%s,%d)", Show(k, 12).c_str(), Show(v, 12).c_str(), ow));
    const std::string* cur = m.Get(k);
    Status s = want_old || !g.P(50) ? d->Set(k, v, ow, want_old ? &old : nullptr) : ow ? d->Set(k, v) : d->Set(k, v, false);
    Expect("Set", s, cur && !ow ? DUP : OK);
    if (want_old && cur && old != *cur) Bad("Set", Fmt("old value of %s is %s, want %s", Show(k).c_str(), Show(old).c_str(), Show(*cur).c_str()));
    if (want_old && !cur && old != "*") Bad("Set", "old value assigned for a missing record");
    if (!cur || ow) m.Set(k, v);
    if (g.P(30)) CheckKey(k);
  }
  void CheckKey(const std::string& k) {
    std::string got = "*";
    const std::string* cur = m.Get(k);
    Status s = d->Get(k, &got);
    Expect("Get", s, cur ? OK : NF);
    if (cur && got != *cur) Bad("Get", Fmt("%s gives %s, want %s", Show(k).c_str(), Show(got).c_str(), Show(*cur).c_str()));
  }
  void OpGet() {
    const std::string& k = kg(g);
    c.T(Fmt("Get(%s)", Show(k, 12).c_str()));
    if (g.P(15)) { Expect("Get", d->Get(k), m.Get(k) ? OK : NF); return; }
    if (g.P(15)) {
      const std::string* cur = m.Get(k);
      std::string r = d->GetSimple(k, "~none~");
      if (r != (cur ? *cur : "~none~")) Bad("GetSimple", Show(r));
      return;
    }
    CheckKey(k);
  }
  void OpRemove() {
    const std::string& k = kg(g);
    c.T(Fmt("Remove(%s)", Show(k, 12).c_str()));
    const std::string* cur = m.Get(k);
    std::string old = "*";
    const bool want_old = g.P(40);
    Expect("Remove", d->Remove(k, want_old ? &old : nullptr), cur ? OK : NF);
    if (want_old && cur && old != *cur) Bad("Remove", "old value " + Show(old) + " want " + Show(*cur));
    m.Remove(k);
    if (g.P(30)) CheckKey(k);
  }
  void OpAppend() {
    const std::string& k = kg(g);
    std::string v = vg(g), delim = g.P(50) ? "" : g.P(50) ? "," : "--";
    c.T(Fmt("Append(%s,%s,%s)", Show(k, 12).c_str(), Show(v, 12).c_str(), delim.c_str()));
    const std::string* cur = m.Get(k);
    Expect("Append", d->Append(k, v, delim), OK);
    m.Set(k, cur ? *cur + delim + v : v);
    if (g.P(30)) CheckKey(k);
  }
  void OpCompareExchange() {
    const std::string& k = kg(g);
    const std::string* cur = m.Get(k);
    const int ek = (int)g.U(4), dk = (int)g.U(4);
    std::string ev = cur && g.P(70) ? *cur : vg(g), dv = vg(g);
    std::string_view e, de;
    if (ek == 0) e = std::string_view(); else if (ek == 1) e = DBM::ANY_DATA; else e = ev;
    if (dk == 0) de = std::string_view(); else if (dk == 1) de = DBM::ANY_DATA; else de = dv;
    bool match = ek == 0 ? !cur : cur && (ek == 1 || *cur == ev);
    std::string act = "*"; bool found = false;
    c.T(Fmt("CompareExchange(%s,e%d,d%d)", Show(k, 12).c_str(), ek, dk));
    Status s = g.P(60) ? d->CompareExchange(k, e, de, &act, &found) : d->CompareExchange(k, e, de);
    const bool asked = act != "*" || found;
    Expect("CompareExchange", s, match ? OK : INF);
    if (asked && found != (cur != nullptr)) Bad("CompareExchange", "found flag");
    if (found && act != *cur) Bad("CompareExchange", "actual value");
    if (match) { if (dk == 0) m.Remove(k); else if (dk >= 2) m.Set(k, dv); }
    if (g.P(30)) CheckKey(k);
  }
  static int64_t BigEndian(std::string_view s) {
    uint64_t v = 0;
    for (size_t i = 0; i < s.size() && i < 8; i++) v = (v << 8) | (unsigned char)s[i];
    return (int64_t)v;
  }
  void OpIncrement() {
    const std::string& k = kg(g);
    const std::string* cur = m.Get(k);
    int64_t base = cur ? BigEndian(*cur) : 0;
    if (base > INT64_MAX - 1000000 || base < INT64_MIN + 1000000) return;
    int64_t inc = g.P(10) ? INT64_MIN : g.R(-1000, 1000), init = g.R(-5, 5), got = 424242;
    c.T(Fmt("Increment(%s,%lld)", Show(k, 12).c_str(), (long long)inc));
    if (g.P(20)) {
      got = d->IncrementSimple(k, inc, init);
    } else {
      Expect("Increment", d->Increment(k, inc, &got, init), OK);
    }
    int64_t want;
    if (inc == INT64_MIN) want = cur ? base : init;
    else { want = (cur ? base : init) + inc; m.Set(k, BE((uint64_t)want, 8)); }
    if (got != want) Bad("Increment", Fmt("current %lld want %lld", (long long)got, (long long)want));
  }
  void OpSetMulti() {
    std::map<std::string, std::string> r;
    int n = 1 + (int)g.U(6);
    for (int i = 0; i < n; i++) r[kg(g)] = vg(g);
    const bool ow = g.P(70);
    c.T(Fmt("SetMulti(%zu,%d)", r.size(), ow));
    int want = OK;
    Status s = d->SetMulti(r, ow);
    for (auto& kv : r) { if (m.Get(kv.first) && !ow) want = DUP; else m.Set(kv.first, kv.second); }
    Expect("SetMulti", s, want);
  }
  void OpGetMulti() {
    std::vector<std::string> ks;
    int n = 1 + (int)g.U(6);
    for (int i = 0; i < n; i++) ks.push_back(kg(g));
    c.T(Fmt("GetMulti(%d)", n));
    std::map<std::string, std::string> r, want;
    Status s = d->GetMulti(ks, &r);
    bool miss = false;
    for (auto& k : ks) { if (auto* v = m.Get(k)) want[k] = *v; else miss = true; }
    Expect("GetMulti", s, miss ? NF : OK);
    if (r != want) Bad("GetMulti", DiffContent(want, r));
  }
  void OpRemoveMulti() {
    std::vector<std::string> ks;
    int n = 1 + (int)g.U(5);
    for (int i = 0; i < n; i++) ks.push_back(kg(g));
    c.T(Fmt("RemoveMulti(%d)", n));
    Status s = d->RemoveMulti(ks);
    bool miss = false;
    for (auto& k : ks) if (!m.Remove(k)) miss = true;
    Expect("RemoveMulti", s, miss ? NF : OK);
  }
  void OpAppendMulti() {
    std::map<std::string, std::string> r;
    int n = 1 + (int)g.U(5);
    for (int i = 0; i < n; i++) r[kg(g)] = vg(g);
    std::string delim = g.P(50) ? "" : ":";
    c.T(Fmt("AppendMulti(%zu)", r.size()));
    Expect("AppendMulti", d->AppendMulti(r, delim), OK);
    for (auto& kv : r) { auto* cur = m.Get(kv.first); m.Set(kv.first, cur ? *cur + delim + kv.second : kv.second); }
  }
  // A processor that checks what it is given and returns a chosen action.
  struct Proc : DBM::RecordProcessor {
    Script* s; std::string key; int action; std::string nv; bool writable;  // action 0 noop 1 remove 2 set
    int calls = 0; bool full = false; std::string seen_key, seen_val;
    std::string_view ProcessFull(std::string_view k, std::string_view v) override {
      calls++; full = true; seen_key = std::string(k); seen_val = std::string(v);
      return Ret();
    }
    std::string_view ProcessEmpty(std::string_view k) override {
      calls++; full = false; seen_key = std::string(k);
      return Ret();
    }
    std::string_view Ret() { return action == 0 ? NOOP : action == 1 ? REMOVE : std::string_view(nv); }
  };
  void FillProc(Proc* p, const std::string& k, bool writable) {
    p->s = this; p->key = k; p->action = (int)g.U(3); p->nv = vg(g); p->writable = writable;
  }
  void ApplyProc(const char* op, Proc& p) {
    const std::string* cur = m.Get(p.key);
    if (p.calls != 1) Bad(op, Fmt("processor called %d times", p.calls));
    if (p.full != (cur != nullptr)) Bad(op, Fmt("processor told %s for key %s", p.full ? "full" : "empty", Show(p.key).c_str()));
    if (cur && p.seen_val != *cur) Bad(op, Fmt("processor given %s, want %s", Show(p.seen_val).c_str(), Show(*cur).c_str()));
    if (p.seen_key != (cur ? m.KeyOf(p.key) : p.key) && p.seen_key != p.key) Bad(op, "processor given another key " + Show(p.seen_key));
    if (!p.writable) return;
    if (p.action == 1) m.Remove(p.key);
    else if (p.action == 2) m.Set(p.key, p.nv);
  }
  void OpProcess() {
    const std::string& k = kg(g);
    Proc p;
    const bool wr = g.P(75);
    FillProc(&p, k, wr);
    if (!wr) p.action = 0;
    c.T(Fmt("Process(%s,%d,%d)", Show(k, 12).c_str(), p.action, wr));
    Expect("Process", d->Process(k, &p, wr), OK);
    ApplyProc("Process", p);
    if (g.P(30)) CheckKey(k);
  }
  void OpProcessMulti() {
    int n = 1 + (int)g.U(7);
    std::vector<std::unique_ptr<Proc>> ps;
    std::vector<std::pair<std::string_view, DBM::RecordProcessor*>> kp;
    const bool wr = g.P(80);
    std::vector<std::string> ks;
    for (int i = 0; i < n; i++) ks.push_back(i > 0 && g.P(25) ? ks[g.U(i)] : kg(g));
    for (int i = 0; i < n; i++) {
      ps.emplace_back(new Proc());
      FillProc(ps.back().get(), ks[i], wr);
      if (!wr) ps.back()->action = 0;
      kp.emplace_back(ps.back()->key, ps.back().get());
    }
    c.T(Fmt("ProcessMulti(%d,%d)", n, wr));
    Expect("ProcessMulti", d->ProcessMulti(kp, wr), OK);
    for (auto& p : ps) ApplyProc("ProcessMulti", *p);
    if (g.P(40)) for (auto& k : ks) CheckKey(k);
  }
  void OpCompareExchangeMulti() {
    int ne = (int)g.U(4), nd = (int)g.U(4);
    std::vector<std::string> store;
    store.reserve(32);
    std::vector<std::pair<std::string_view, std::string_view>> e, de;
    bool match = true;
    for (int i = 0; i < ne; i++) {
      store.push_back(kg(g));
      std::string_view k = store.back();
      const std::string* cur = m.Get(k);
      int kind = g.P(80) ? (cur ? 2 : 0) : (int)g.U(4);
      store.push_back(cur && g.P(90) ? *cur : vg(g));
      std::string_view v = kind == 0 ? std::string_view() : kind == 1 ? DBM::ANY_DATA : std::string_view(store.back());
      e.emplace_back(k, v);
      if (kind == 0 ? cur != nullptr : !cur || (kind != 1 && *cur != v)) match = false;
    }
    for (int i = 0; i < nd; i++) {
      store.push_back(kg(g));
      std::string_view k = store.back();
      store.push_back(vg(g));
      de.emplace_back(k, g.P(30) ? std::string_view() : std::string_view(store.back()));
    }
    c.T(Fmt("CompareExchangeMulti(%d,%d)", ne, nd));
    Expect("CompareExchangeMulti", d->CompareExchangeMulti(e, de), match ? OK : INF);
    if (match) for (auto& kv : de) { if (kv.second.data() == nullptr) m.Remove(kv.first); else m.Set(kv.first, kv.second); }
    if (g.P(40)) for (auto& kv : de) CheckKey(std::string(kv.first));
  }
  void OpRekey() {
    const std::string ok = kg(g), nk = g.P(10) ? ok : kg(g);
    const bool ow = g.P(60), cp = g.P(30);
    c.T(Fmt("Rekey(%s,%s,%d,%d)", Show(ok, 12).c_str(), Show(nk, 12).c_str(), ow, cp));
    const bool oe = m.Get(ok), ne = m.Get(nk);
    std::string val = "*";
    Status s = d->Rekey(ok, nk, ow, cp, g.P(50) ? &val : nullptr);
    int want;
    if (!ow && ne) want = DUP; else if (!oe) want = NF; else want = OK;
    if (want == DUP && !oe) {
      // Both conditions fail: either error is in line with the documentation.
      if (SC(s) != DUP && SC(s) != NF) Bad("Rekey", "status " + SS(s));
    } else Expect("Rekey", s, want);
    if (want == OK) {
      std::string v = *m.Get(ok);
      if (val != "*" && val != v) Bad("Rekey", "value");
      if (!cp) m.Remove(ok);
      m.Set(nk, v);
    }
    CheckKey(ok);
    CheckKey(nk);
  }
  void OpProcessFirst() {
    Proc p;
    const bool wr = g.P(70);
    FillProc(&p, "", wr);
    if (!wr) p.action = 0;
    c.T(Fmt("ProcessFirst(%d,%d)", p.action, wr));
    Status s = d->ProcessFirst(&p, wr);
    if (m.m.empty()) { Expect("ProcessFirst", s, NF); if (p.calls) Bad("ProcessFirst", "processor called on empty database"); return; }
    Expect("ProcessFirst", s, OK);
    if (m.ordered && p.seen_key != m.m.begin()->first) Bad("ProcessFirst", "first is " + Show(p.seen_key) + " want " + Show(m.m.begin()->first));
    p.key = p.seen_key;
    if (!p.full) Bad("ProcessFirst", "ProcessEmpty called");
    ApplyProc("ProcessFirst", p);
  }
  void OpPopFirst() {
    std::string k = "*", v = "*";
    c.T("PopFirst");
    Status s = d->PopFirst(&k, &v);
    Expect("PopFirst", s, m.m.empty() ? NF : OK);
    if (m.m.empty()) return;
    if (m.ordered && k != m.m.begin()->first) Bad("PopFirst", "key " + Show(k));
    auto* cur = m.Get(k);
    if (!cur) Bad("PopFirst", "popped a record that does not exist: " + Show(k));
    if (*cur != v) Bad("PopFirst", "value");
    m.Remove(k);
    CheckKey(k);
  }
  void OpPushLast() {
    double w = 1 + (double)g.U(3);
    std::string v = vg(g), k;
    c.T(Fmt("PushLast(%g)", w));
    if (!o.push_last) return;
    Expect("PushLast", d->PushLast(v, w, &k), OK);
    std::string want;
    for (uint64_t seq = 0;; seq++) { want = BE((uint64_t)(int64_t)(w * 100000000 + seq), 8); if (!m.Get(want)) break; }
    if (k != want) Bad("PushLast", "key " + Show(k) + " want " + Show(want));
    m.Set(k, v);
    CheckKey(k);
  }
  struct EachProc : DBM::RecordProcessor {
    Rng g; int mode; int empties = 0; bool after_second = false;
    std::vector<std::pair<std::string, std::string>> seen;
    std::vector<std::pair<std::string, int>> actions;
    std::map<std::string, std::string> nvs;
    std::string buf; std::function<std::string()> mk;
    bool bad_order = false, bad_empty_key = false;
    explicit EachProc(uint64_t s) : g(s) {}
    std::string_view ProcessFull(std::string_view k, std::string_view v) override {
      if (empties != 1) bad_order = true;
      seen.emplace_back(std::string(k), std::string(v));
      if (mode == 0) return NOOP;
      int a = (int)g.U(mode == 1 ? 10 : 4);
      if (a == 0) { actions.emplace_back(std::string(k), 1); return REMOVE; }
      if (a == 1) { buf = mk(); actions.emplace_back(std::string(k), 2); nvs[std::string(k)] = buf; return buf; }
      return NOOP;
    }
    std::string_view ProcessEmpty(std::string_view k) override {
      if (k.data() != NOOP.data()) bad_empty_key = true;
      empties++;
      return NOOP;
    }
  };
  void OpProcessEach() {
    EachProc p(g.Next());
    const bool wr = g.P(60);
    p.mode = wr ? (int)g.U(3) : 0;
    p.mk = [&] { return vg(g); };
    c.T(Fmt("ProcessEach(%d)", p.mode));
    Expect("ProcessEach", d->ProcessEach(&p, wr), OK);
    if (p.empties != 2 || p.bad_order || p.bad_empty_key) Bad("ProcessEach", Fmt("edge calls %d %d %d", p.empties, p.bad_order, p.bad_empty_key));
    Content got, want = ToContent(m);
    std::vector<std::string> order;
    for (auto& kv : p.seen) { if (!got.emplace(kv.first, kv.second).second) Bad("ProcessEach", "record visited twice: " + Show(kv.first)); order.push_back(kv.first); }
    std::string df = DiffContent(want, got);
    if (!df.empty()) Bad("ProcessEach", df);
    if (m.ordered && o.each_order) { size_t i = 0; for (auto& kv : m.m) if (order[i++] != kv.first) Bad("ProcessEach", "order"); }
    for (auto& a : p.actions) { if (a.second == 1) m.Remove(a.first); else m.Set(a.first, p.nvs[a.first]); }
    if (!p.actions.empty()) FullCheck("after ProcessEach");
  }
  void OpIterEdit() {
    auto it = d->MakeIterator();
    Status s = g.P(70) || !m.ordered ? it->First() : it->Last();
    if (m.m.empty()) return;
    Expect("Iter.First", s, OK);
    int n = (int)g.U(5);
    for (int i = 0; i < n; i++) {
      std::string k, v;
      Status gs = it->Get(&k, &v);
      if (SC(gs) == NF) return;
      Expect("Iter.Get", gs, OK);
      auto* cur = m.Get(k);
      if (!cur) Bad("Iter.Get", "unknown record " + Show(k));
      if (*cur != v) Bad("Iter.Get", "value");
      int a = (int)g.U(4);
      if (a == 0) {
        std::string nv = vg(g), ok = "*", ov = "*";
        c.T("Iter.Set(" + Show(k, 12) + "," + Show(nv, 12) + ")");
        Expect("Iter.Set", it->Set(nv, &ok, &ov), OK);
        if (ok != k || ov != v) Bad("Iter.Set", "old key or value");
        m.Set(k, nv);
        CheckKey(k);
        if (!m.ordered) return;  // the order of unordered iteration after relocation is checked elsewhere
        Expect("Iter.Next", it->Next(), OK);
      } else if (a == 1) {
        c.T("Iter.Remove(" + Show(k, 12) + ")");
        Expect("Iter.Remove", it->Remove(), OK);
        m.Remove(k);
        CheckKey(k);
      } else {
        Expect("Iter.Next", it->Next(), OK);
      }
    }
  }
  void OpCount() {
    c.T("Count");
    int64_t n = -1;
    Expect("Count", d->Count(&n), OK);
    if (n != (int64_t)m.m.size()) Bad("Count", Fmt("%lld want %zu", (long long)n, m.m.size()));
  }
  void OpSync() {
    c.T("Synchronize");
    Expect("Synchronize", d->Synchronize(g.P(10)), OK);
    c.Stat("sync");
  }
  void OpRebuild() {
    std::string what;
    Status s = o.do_rebuild ? o.do_rebuild(g, &what) : d->Rebuild();
    c.T("Rebuild " + what);
    Expect("Rebuild", s, OK);
    c.Stat("rebuild");
    FullCheck("after Rebuild");
  }
  void OpClear() {
    c.T("Clear");
    Expect("Clear", d->Clear(), OK);
    m.m.clear();
    c.Stat("clear");
    FullCheck("after Clear");
  }
  void OpReopen() {
    std::string what;
    d = o.do_reopen(g, &what);
    c.T("Reopen " + what);
    c.Stat("reopen");
    FullCheck("after reopen");
  }
  void OpMisc() {
    bool tobe = false; int64_t n = -1; double t = -1; std::string p;
    c.T("Misc");
    d->ShouldBeRebuilt(&tobe);
    d->GetFileSize(&n);
    d->GetTimestamp(&t);
    d->GetFilePath(&p);
    if (d->Inspect().empty()) Bad("Inspect", "empty");
    if (d->IsOpen() != o.opened || d->IsWritable() != o.opened || (o.opened && !d->IsHealthy())) Bad("Is*", "flags");
    if (d->IsOrdered() != m.ordered) Bad("IsOrdered", "flag");
  }
  // Complete comparison through count, lookup, iteration (both ways) and ProcessEach.
  void FullCheck(const char* when) {
    const std::string w = when;
    c.case_evals++;
    int64_t n = -1;
    Expect("Count", d->Count(&n), OK);
    if (n != (int64_t)m.m.size()) c.Fail("mismatch:count", Fmt("count %lld, want %zu (%s)", (long long)n, m.m.size(), when));
    auto it = d->MakeIterator();
    Content got, want = ToContent(m);
    std::vector<std::string> order;
    Expect("Iter.First", it->First(), OK);
    std::string k, v;
    const bool use_step = g.P(50);
    while (true) {
      Status s = use_step ? it->Step(&k, &v) : it->Get(&k, &v);
      if (SC(s) == NF) break;
      Expect("Iter.Get", s, OK);
      if (!got.emplace(k, v).second) c.Fail("mismatch:iter-duplicate", Fmt("iterator yields %s twice (%s)", Show(k).c_str(), when));
      order.push_back(k);
      if (got.size() > want.size() + 5) break;
      if (!use_step) Expect("Iter.Next", it->Next(), OK);
    }
    std::string df = DiffContent(want, got);
    if (!df.empty()) c.Fail("mismatch:content", df + " (" + when + ", by iterator)");
    if (m.ordered) {
      size_t i = 0;
      for (auto& kv : m.m) if (order[i++] != kv.first) c.Fail("mismatch:order", "forward order (" + w + ")");
      order.clear();
      Expect("Iter.Last", it->Last(), OK);
      while (true) {
        Status s = it->Get(&k, &v);
        if (SC(s) == NF) break;
        Expect("Iter.Get", s, OK);
        order.push_back(k);
        auto* cur = m.Get(k);
        if (!cur || *cur != v) c.Fail("mismatch:backward", "backward scan record " + Show(k) + " (" + w + ")");
        if (order.size() > want.size() + 5) break;
        Expect("Iter.Previous", it->Previous(), OK);
      }
      if (order.size() != want.size()) c.Fail("mismatch:backward", Fmt("backward scan yields %zu of %zu (%s)", order.size(), want.size(), when));
      i = order.size();
      for (auto& kv : m.m) if (order[--i] != kv.first) c.Fail("mismatch:order", "backward order (" + w + ")");
    }
    for (size_t i = 0; i < kg.pool.size(); i++) CheckKey(kg.pool[i]);
    if (m.m.size() > 2) c.nontrivial = true;
    c.Max("max_records", (int64_t)m.m.size());
    c.Stat("full_checks");
  }

  Ctx& c; Rng& g; DBM* d; Model& m; const KeyGen& kg; ValGen& vg; ScriptOptions o;
  int64_t nstep = 0;
};

}  // namespace vh
