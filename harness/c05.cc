// C05: CacheDBM keeps to its capacity, evicts the least recently used records, and never returns anything stale.
#include <list>
#include "factory.h"
#include "tkrzw_hash_util.h"
using namespace vh;

static int SlotOf(std::string_view k) { return (int)((HashMurmur(k, 19780211) & 0xff) % 32); }

// Per slot: records in the order of their last use (oldest first).
struct CacheModel {
  struct Slot { std::list<std::pair<std::string, std::string>> l; };
  Slot s[32];
  std::unordered_map<std::string, std::list<std::pair<std::string, std::string>>::iterator> ix;
  int64_t cap_rec = 0, cap_mem = 0;
  int64_t evicted = 0;
  int64_t SlotCap() const { return cap_rec / 32 + 1; }
  const std::string* Peek(const std::string& k) { auto it = ix.find(k); return it == ix.end() ? nullptr : &it->second->second; }
  const std::string* Use(const std::string& k) {
    auto it = ix.find(k);
    if (it == ix.end()) return nullptr;
    auto& l = s[SlotOf(k)].l;
    l.splice(l.end(), l, it->second);
    return &it->second->second;
  }
  void Remove(const std::string& k) { auto it = ix.find(k); if (it == ix.end()) return; s[SlotOf(k)].l.erase(it->second); ix.erase(it); }
  void Evict(int i, int64_t keep) { while ((int64_t)s[i].l.size() > keep) { ix.erase(s[i].l.front().first); s[i].l.pop_front(); evicted++; } }
  // Returns true when the record was new.
  bool Set(const std::string& k, const std::string& v) {
    if (Use(k)) { ix[k]->second = v; return false; }
    auto& l = s[SlotOf(k)].l;
    l.emplace_back(k, v);
    ix[k] = std::prev(l.end());
    if (cap_rec > 0) Evict(SlotOf(k), SlotCap());
    return true;
  }
  void Clear() { for (auto& x : s) x.l.clear(); ix.clear(); }
  size_t Count() const { return ix.size(); }
};

struct Collect : DBM::RecordProcessor {
  std::vector<std::pair<std::string, std::string>> r;
  int empties = 0;
  std::string_view ProcessFull(std::string_view k, std::string_view v) override { r.emplace_back(std::string(k), std::string(v)); return NOOP; }
  std::string_view ProcessEmpty(std::string_view) override { empties++; return NOOP; }
};
struct One : DBM::RecordProcessor {
  int action = 0;
  std::string nv, key, val;
  int full = 0, empty = 0;
  std::string_view Ret() { return action == 0 ? NOOP : action == 1 ? REMOVE : std::string_view(nv); }
  std::string_view ProcessFull(std::string_view k, std::string_view v) override { full++; key = k; val = v; return Ret(); }
  std::string_view ProcessEmpty(std::string_view k) override { empty++; key = k; return Ret(); }
};

static void Case(Ctx& c, Rng& g, int64_t n) {
  const bool mem_mode = g.P(35);
  int64_t cap = mem_mode ? g.Pick<int64_t>({1, 64, 1000, 100000}) : g.Pick<int64_t>({1, 20, 31, 32, 64, 100, 320, 1000, 5000});
  int64_t mem = mem_mode ? g.Pick<int64_t>({1, 4000, 10000, 30000, 100000, 500000}) : g.P(80) ? -1 : (int64_t)1 << 40;
  const int space = (int)g.Pick({10, 60, 300, 1500, 4000});
  const bool bound = g.P(60);
  FileCfg fc = FileCfg::Make(g);
  if (fc.block > 0 && (fc.options & PositionalFile::ACCESS_PADDING)) fc.block = 0;
  Describe(c, Fmt("cap=%lld mem=%lld bound=%d space=%d ", (long long)cap, (long long)mem, bound, space) + fc.Str());
  c.Sig(c.desc);
  // With a memory capacity the estimate is the library's; here records only vanish oldest first, when there is a reason.
  CacheModel m;
  m.cap_rec = cap;
  m.cap_mem = mem_mode ? mem : 0;
  ValGen vg(g);
  std::vector<std::string> pool;
  const bool one_slot = g.P(25);  // keys of one or two slots only
  for (int i = 0; (int)pool.size() < space && i < 200000; i++) {
    std::string k = g.P(80) ? Fmt("%d", i) : g.P(5) ? std::string(200, 'k') + Fmt("%d", i) : g.Bytes(1 + g.U(6)) + Fmt("%d", i);
    if (one_slot && SlotOf(k) > 1) continue;
    pool.push_back(k);
    if (one_slot && pool.size() >= 200) break;
  }
  const std::string path = c.Path("casket.cache");
  std::unique_ptr<CacheDBM> d;
  auto make = [&] { d.reset(bound ? new CacheDBM(fc.New(), cap, mem) : new CacheDBM(cap, mem)); };
  make();
  if (bound) { Status s = d->Open(path, true, File::OPEN_DEFAULT); VCHECK(c, s == Status::SUCCESS, "open", "%s", ToString(s).c_str()); }
  auto bad = [&](const char* k, const std::string& msg) { c.Fail(k, msg); };
  // In memory mode, what vanished is taken over into the model after checking that it is a prefix by age.
  int64_t growth = 0;  // upper bound of the bytes that the slot of the last write may hold
  (void)growth;
  auto sync_model = [&](const char* when) {
    Collect p;
    Status s = d->ProcessEach(&p, false);
    if (s != Status::SUCCESS || p.empties != 2) bad("each", when);
    std::unordered_map<std::string, std::string> got;
    for (auto& kv : p.r) if (!got.emplace(kv).second) bad("mismatch:duplicate", Fmt("%s is yielded twice (%s)", Show(kv.first).c_str(), when));
    for (auto& kv : got) {
      const std::string* w = m.Peek(kv.first);
      if (!w) bad("stale:resurrected", Fmt("%s should not exist (%s)", Show(kv.first).c_str(), when));
      if (*w != kv.second) bad("stale:value", Fmt("%s is %s, want %s (%s)", Show(kv.first).c_str(), Show(kv.second).c_str(), Show(*w).c_str(), when));
    }
    if (mem_mode) {
      for (int i = 0; i < 32; i++) {
        auto& l = m.s[i].l;
        bool alive = false;
        int64_t lost = 0, bytes = 0;
        for (auto& kv : l) {
          bytes += kv.first.size() + kv.second.size() + 100;
          if (got.count(kv.first)) alive = true;
          else { if (alive) bad("lru:order", Fmt("%s was evicted although an older record of its slot survives (%s)", Show(kv.first).c_str(), when)); lost++; }
        }
        if (lost) {
          // Generous estimates: an eviction needs a slot whose table and records could exceed its share.
          const int64_t table = 8 * 4 * (cap / 32 + 20);
          if (bytes + table < mem / 32) bad("lru:needless", Fmt("%lld records of a slot of about %lld bytes evicted, capacity %lld (%s)", (long long)lost, (long long)bytes, (long long)mem / 32, when));
          m.Evict(i, (int64_t)l.size() - lost);
          c.Stat("evictions_mem", lost);
        }
      }
      if (m.Count() > 0 && d->GetMemoryUsage() > mem + 32) bad("capacity:memory", Fmt("memory usage %lld exceeds %lld (%s)", (long long)d->GetMemoryUsage(), (long long)mem, when));
    } else {
      for (auto& kv : m.ix) if (!got.count(kv.first)) bad("lru:lost", Fmt("%s is missing (%s)", Show(kv.first).c_str(), when));
    }
    if (d->CountSimple() != (int64_t)got.size()) bad("mismatch:count", Fmt("count %lld, records %zu (%s)", (long long)d->CountSimple(), got.size(), when));
    if (!mem_mode && (int64_t)got.size() > cap + 32) bad("capacity:records", Fmt("%zu records exceed %lld (%s)", got.size(), (long long)cap, when));
    int64_t eff = 0;
    for (auto& kv : got) eff += kv.first.size() + kv.second.size();
    if (d->GetEffectiveDataSize() != eff) bad("mismatch:eff-size", Fmt("effective data size %lld, want %lld (%s)", (long long)d->GetEffectiveDataSize(), (long long)eff, when));
    c.Max("max_records", got.size());
    if (got.size() > 2) c.nontrivial = true;
    c.case_evals++;
  };
  auto expect = [&](const char* op, const Status& s, Status::Code want) {
    c.Sig((uint64_t)s.GetCode());
    if (s.GetCode() != want) bad(Fmt("mismatch:%s", op).c_str(), Fmt("%s: status %s", op, ToString(s).c_str()));
  };
  const int nops = (int)g.Pick({100, 400, 1000, 2000});
  const int hot = (int)g.Pick({0, 30, 70});
  for (int i = 0; i < nops; i++) {
    const std::string& k = g.P(hot) ? pool[g.U(std::min<size_t>(pool.size(), 8))] : pool[g.U(pool.size())];
    int w = (int)g.U(100);
    const std::string* cur = m.Peek(k);
    if (w < 30) {
      std::string v = mem_mode && g.P(15) ? std::string(g.U(6000), 'x') : vg(g);
      const bool ow = g.P(85);
      c.T(Fmt("Set(%s,%zu bytes,%d)", Show(k, 12).c_str(), v.size(), ow));
      std::string old = "*";
      Status s = d->Set(k, v, ow, g.P(30) ? &old : nullptr);
      expect("Set", s, cur && !ow ? Status::DUPLICATION_ERROR : Status::SUCCESS);
      if (old != "*" && (!cur || old != *cur)) bad("stale:old", "old value");
      if (cur && !ow) m.Use(k); else m.Set(k, v);
    } else if (w < 55) {
      c.T("Get(" + Show(k, 12) + ")");
      std::string v;
      Status s = d->Get(k, &v);
      expect("Get", s, cur ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
      if (cur && v != *cur) bad("stale:value", "Get of " + Show(k) + " gives " + Show(v));
      if (cur) c.Stat("hits"); else c.Stat("misses");
      m.Use(k);
    } else if (w < 62) {
      c.T("Remove(" + Show(k, 12) + ")");
      expect("Remove", d->Remove(k), cur ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
      m.Remove(k);
    } else if (w < 67) {
      std::string v = vg(g);
      c.T("Append(" + Show(k, 12) + ")");
      expect("Append", d->Append(k, v, ","), Status::SUCCESS);
      m.Set(k, cur ? *cur + "," + v : v);
    } else if (w < 71) {
      One p;
      p.action = (int)g.U(3); p.nv = vg(g);
      const bool wr = g.P(70);
      if (!wr) p.action = 0;
      c.T(Fmt("Process(%s,%d,%d)", Show(k, 12).c_str(), p.action, wr));
      expect("Process", d->Process(k, &p, wr), Status::SUCCESS);
      if (p.full != (cur ? 1 : 0) || p.empty != (cur ? 0 : 1) || (cur && p.val != *cur)) bad("stale:process", Show(k));
      m.Use(k);
      if (p.action == 1) m.Remove(k); else if (p.action == 2) m.Set(k, p.nv);
    } else if (w < 75) {
      std::vector<One> ps(1 + g.U(6));
      std::vector<std::pair<std::string_view, DBM::RecordProcessor*>> kp;
      std::vector<std::string> ks;
      for (auto& p : ps) { p.action = mem_mode ? 0 : (int)g.U(3); p.nv = vg(g); ks.push_back(pool[g.U(pool.size())]); }
      for (size_t j = 0; j < ps.size(); j++) kp.emplace_back(ks[j], &ps[j]);
      c.T(Fmt("ProcessMulti(%zu)", ps.size()));
      expect("ProcessMulti", d->ProcessMulti(kp, true), Status::SUCCESS);
      for (size_t j = 0; j < ps.size(); j++) {
        const std::string* x = m.Use(ks[j]);
        if (ps[j].full != (x ? 1 : 0) || (x && ps[j].val != *x)) bad("stale:multi", Show(ks[j]));
        if (ps[j].action == 1) m.Remove(ks[j]); else if (ps[j].action == 2) m.Set(ks[j], ps[j].nv);
      }
    } else if (w < 78) {
      One p;
      const bool wr = g.P(70);
      p.action = wr ? (int)g.U(3) : 0; p.nv = "first";
      c.T(Fmt("ProcessFirst(%d,%d)", p.action, wr));
      Status s = d->ProcessFirst(&p, wr);
      expect("ProcessFirst", s, m.Count() ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
      if (m.Count()) {
        const std::string* x = m.Peek(p.key);
        if (p.full != 1 || !x || *x != p.val) bad("stale:first", Show(p.key));
        if (wr) m.Use(p.key);
        if (p.action == 1) m.Remove(p.key); else if (p.action == 2) m.Set(p.key, p.nv);
      }
    } else if (w < 80) {
      std::string pk, pv;
      c.T("PopFirst");
      expect("PopFirst", d->PopFirst(&pk, &pv), m.Count() ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
      if (m.Count()) { const std::string* x = m.Peek(pk); if (!x || *x != pv) bad("stale:pop", Show(pk)); m.Remove(pk); }
    } else if (w < 82) {
      // A full iteration uses every record in the order of the last use, so it changes no order.
      c.T("Iterate");
      auto it = d->MakeIterator();
      expect("First", it->First(), Status::SUCCESS);
      std::string ik, iv;
      std::set<std::string> seen;
      while (true) {
        Status s = it->Get(&ik, &iv);
        if (s == Status::NOT_FOUND_ERROR) break;
        expect("Iter.Get", s, Status::SUCCESS);
        const std::string* x = m.Peek(ik);
        if (!x || *x != iv) bad("stale:iter", Show(ik));
        if (!seen.insert(ik).second) bad("mismatch:iter-dup", Show(ik));
        if (mem_mode && g.P(10)) {}
        m.Use(ik);
        expect("Iter.Next", it->Next(), Status::SUCCESS);
      }
      if (seen.size() != m.Count()) bad("mismatch:iter", Fmt("iterator yields %zu of %zu", seen.size(), m.Count()));
    } else if (w < 84) {
      c.T("Jump(" + Show(k, 12) + ")");
      auto it = d->MakeIterator();
      expect("Jump", it->Jump(k), cur ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
      std::string ik, iv;
      if (cur) {
        expect("Iter.Get", it->Get(&ik, &iv), Status::SUCCESS);
        if (ik != k || iv != *cur) bad("stale:jump", Show(ik));
        m.Use(k);
        if (!mem_mode && g.P(40)) {
          if (g.P(50)) { expect("Iter.Remove", it->Remove(), Status::SUCCESS); m.Remove(k); }
          else { expect("Iter.Set", it->Set("by iterator"), Status::SUCCESS); m.Set(k, "by iterator"); }
        }
      }
    } else if (w < 86 && !mem_mode) {
      // A writable pass that changes some records.
      struct Ed : DBM::RecordProcessor {
        CacheModel* m; uint64_t seed; std::string buf; std::vector<std::pair<std::string, int>> acts; std::vector<std::string> nv;
        std::string_view ProcessFull(std::string_view k, std::string_view) override {
          const uint64_t h = Mix(HashStr(k) ^ seed) % 6;
          if (h == 0) { acts.emplace_back(std::string(k), 1); nv.push_back(""); return REMOVE; }
          if (h == 1) { buf = Fmt("each%u", (unsigned)(seed & 0xffff)); acts.emplace_back(std::string(k), 2); nv.push_back(buf); return buf; }
          acts.emplace_back(std::string(k), 0); nv.push_back(""); return NOOP;
        }
      } p;
      p.m = &m; p.seed = g.Next();
      c.T("ProcessEach(writable)");
      expect("ProcessEach", d->ProcessEach(&p, true), Status::SUCCESS);
      if (p.acts.size() != m.Count()) bad("mismatch:each", Fmt("%zu of %zu records", p.acts.size(), m.Count()));
      for (size_t j = 0; j < p.acts.size(); j++) {
        if (!m.Use(p.acts[j].first)) bad("stale:each", Show(p.acts[j].first));
        if (p.acts[j].second == 1) m.Remove(p.acts[j].first); else if (p.acts[j].second == 2) m.Set(p.acts[j].first, p.nv[j]);
      }
    } else if (w < 87) {
      int64_t nc = g.P(60) ? g.Pick<int64_t>({-1, 1, 50, 100, 640, 3000}) : -1, nm = mem_mode && g.P(50) ? g.Pick<int64_t>({5000, 20000, 200000}) : -1;
      c.T(Fmt("RebuildAdvanced(%lld,%lld)", (long long)nc, (long long)nm));
      expect("Rebuild", d->RebuildAdvanced(nc, nm), Status::SUCCESS);
      if (nc > 0) cap = nc;
      if (nm > 0) mem = nm;
      m.cap_rec = cap;
      for (int j = 0; j < 32; j++) m.Evict(j, m.SlotCap());
      sync_model("after Rebuild");
      c.Stat("rebuilds");
    } else if (w < 88 && g.P(10)) {
      c.T("Clear");
      expect("Clear", d->Clear(), Status::SUCCESS);
      m.Clear();
    } else if (w < 90 && bound && g.P(40)) {
      c.T("Reopen");
      if (g.P(30)) { expect("Synchronize", d->Synchronize(false), Status::SUCCESS); }
      // Closing keeps the survivors in order of use; a larger capacity keeps all, a smaller one the most recent ones.
      const bool fresh = g.P(60);
      if (g.P(70)) expect("Close", d->Close(), Status::SUCCESS);
      else d.reset();
      if (fresh || !d) {
        if (g.P(40)) cap = g.Pick<int64_t>({1, 40, 96, 700, 4000});
        fc = FileCfg::Make(g);
        if (fc.block > 0 && (fc.options & PositionalFile::ACCESS_PADDING)) fc.block = 0;
        make();
        m.cap_rec = cap;
      }
      expect("Open", d->Open(path, true, File::OPEN_DEFAULT), Status::SUCCESS);
      for (int j = 0; j < 32; j++) m.Evict(j, m.SlotCap());
      sync_model("after reopen");
      c.Stat("reopens");
    } else {
      std::string v = vg(g);
      c.T("Set(" + Show(k, 12) + ")");
      expect("Set", d->Set(k, v), Status::SUCCESS);
      m.Set(k, v);
    }
    if (mem_mode || m.Count() < 300 ? g.P(mem_mode && m.Count() > 200 ? 100 : mem_mode ? 100 : 20) : g.P(3)) sync_model("step");
  }
  sync_model("end");
  c.Stat("evictions_rec", m.evicted);
  c.Stat("ops", nops);
  c.Reach(mem_mode ? "memory-capacity" : "record-capacity");
}
int main(int argc, char** argv) { return Main(argc, argv, "C05", Case); }
