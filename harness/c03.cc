// C03: SkipDBM batches updates and exposes exactly the merged, ordered contents.
#include "factory.h"
#include "script.h"
using namespace vh;

typedef std::vector<std::pair<std::string, std::string>> Recs;
typedef std::vector<std::string> (*Reducer)(const std::string&, const std::vector<std::string>&);

// Independent definitions of the stock reducers.
static std::string Join(const std::vector<std::string>& v, const std::string& d) {
  std::string r;
  bool first = true;
  for (auto& x : v) { if (!first) r += d; first = false; r += x; }
  return r;
}
static std::vector<std::string> RefReduce(int kind, const std::vector<std::string>& v) {
  if (v.empty()) return {};
  switch (kind) {
    case 1: return {v.front()};
    case 2: return {v.size() > 1 ? v[1] : v[0]};
    case 3: return {v.back()};
    case 4: return {Join(v, "")};
    case 5: return {Join(v, std::string(1, '\0'))};
    case 6: return {Join(v, "\t")};
    case 7: return {Join(v, "\n")};
    case 8: { long long s = 0;  // only called with decimal values
 for (auto& x : v) s += strtoll(x.c_str(), nullptr, 10); return {Fmt("%lld", s)}; }
    case 9: { uint64_t s = 0; for (auto& x : v) { uint64_t n = 0; for (unsigned char ch : x.substr(0, 8)) n = n << 8 | ch; s += n; } return {BE(s, 8)}; }
    default: return v;
  }
}
static std::vector<std::string> DoubleReducer(const std::string& k, const std::vector<std::string>& v) {
  std::vector<std::string> r = v;
  if (k.size() % 3 == 0) return {};
  r.push_back(k);
  return r;
}
static const Reducer kReducers[] = {nullptr, SkipDBM::ReduceToFirst, SkipDBM::ReduceToSecond, SkipDBM::ReduceToLast, SkipDBM::ReduceConcat,
  SkipDBM::ReduceConcatWithNull, SkipDBM::ReduceConcatWithTab, SkipDBM::ReduceConcatWithLine, SkipDBM::ReduceToTotal, SkipDBM::ReduceToTotalBigEndian, DoubleReducer};

struct World {
  Ctx& c;
  Rng& g;
  Recs synced;                       // in order
  std::vector<Recs> merged;          // databases merged since the last synchronization
  std::vector<std::pair<std::string, std::pair<bool, std::string>>> pending;  // key, (is removal, value)
  bool updated = false;
  const SkipDBM::TuningParameters* tp = nullptr;
  // In the in-order mode the counters already include what is pending (the repository's tests pin this).
  bool in_order_pending() const { return tp->insert_in_order && !pending.empty(); }
  // Whether every value is a plain decimal number, which the decimal reducer is meant for.
  bool Numeric() const {
    auto num = [](const std::string& s) { return !s.empty() && s.size() < 16 && s.find_first_not_of("0123456789", s[0] == '-' ? 1 : 0) == std::string::npos && s != "-"; };
    for (auto& kv : synced) if (!num(kv.second)) return false;
    for (auto& db : merged) for (auto& kv : db) if (!num(kv.second)) return false;
    for (auto& p : pending) if (!p.second.first && !num(p.second.second)) return false;
    return true;
  }
  World(Ctx& c, Rng& g) : c(c), g(g) {}
  void Sync(int kind) {
    std::map<std::string, std::vector<std::string>> m;
    for (auto& kv : synced) m[kv.first].push_back(kv.second);
    for (auto& db : merged) for (auto& kv : db) m[kv.first].push_back(kv.second);
    for (auto& p : pending) { if (p.second.first) m[p.first].clear(); else m[p.first].push_back(p.second.second); }
    synced.clear();
    for (auto& kv : m) {
      if (kv.second.empty()) continue;
      auto vs = kind == 10 ? DoubleReducer(kv.first, kv.second) : RefReduce(kind, kv.second);
      for (auto& v : vs) synced.emplace_back(kv.first, v);
    }
    Drop();
  }
  void Drop() { merged.clear(); pending.clear(); updated = false; }
  size_t Lower(const std::string& k) const { return std::lower_bound(synced.begin(), synced.end(), k, [](const std::pair<std::string, std::string>& a, const std::string& b) { return a.first < b; }) - synced.begin(); }
  size_t Upper(const std::string& k) const { return std::upper_bound(synced.begin(), synced.end(), k, [](const std::string& a, const std::pair<std::string, std::string>& b) { return a < b.first; }) - synced.begin(); }
  const std::string* Find(const std::string& k) const { size_t i = Lower(k); return i < synced.size() && synced[i].first == k ? &synced[i].second : nullptr; }
  void Put(const std::string& k, const std::string& v) { pending.push_back({k, {false, v}}); updated = true; }
  void Del(const std::string& k) { pending.push_back({k, {true, ""}}); updated = true; }
};

static void Check(Ctx& c, Rng& g, SkipDBM& d, World& w, const std::vector<std::string>& pool, const char* when) {
  c.case_evals++;
  int64_t n = -1;
  VCHECK(c, d.Count(&n) == Status::SUCCESS && (w.in_order_pending() || n == (int64_t)w.synced.size()), "mismatch:count", "count %lld want %zu (%s)", (long long)n, w.synced.size(), when);
  VCHECK(c, d.IsUpdated() == w.updated, "mismatch:updated", "IsUpdated %d want %d (%s)", d.IsUpdated(), w.updated, when);
  auto it = d.MakeIterator();
  std::string k, v;
  VCHECK(c, it->First() == Status::SUCCESS, "mismatch:First", "%s", when);
  for (size_t i = 0; i < w.synced.size(); i++) {
    Status s = it->Get(&k, &v);
    VCHECK(c, s == Status::SUCCESS && k == w.synced[i].first && v == w.synced[i].second, "mismatch:forward", "%s record %zu of %zu is %s=%s want %s=%s (%s)", SS(s).c_str(), i, w.synced.size(),
           Show(k).c_str(), Show(v).c_str(), Show(w.synced[i].first).c_str(), Show(w.synced[i].second).c_str(), when);
    VCHECK(c, it->Next() == Status::SUCCESS, "mismatch:Next", "%s", when);
  }
  VCHECK(c, it->Get() == Status::NOT_FOUND_ERROR, "mismatch:forward", "more than %zu records (%s)", w.synced.size(), when);
  Status ls = it->Last();
  VCHECK(c, ls == Status::SUCCESS, "mismatch:Last", "%s (%s)", SS(ls).c_str(), when);
  for (size_t i = w.synced.size(); i > 0; i--) {
    Status s = it->Get(&k, &v);
    VCHECK(c, s == Status::SUCCESS && k == w.synced[i - 1].first && v == w.synced[i - 1].second, "mismatch:backward", "%s record %zu of %zu is %s (%s)", SS(s).c_str(), i - 1, w.synced.size(), Show(k).c_str(), when);
    VCHECK(c, it->Previous() == Status::SUCCESS, "mismatch:Previous", "%s", when);
  }
  VCHECK(c, it->Get() == Status::NOT_FOUND_ERROR, "mismatch:backward", "more than %zu records (%s)", w.synced.size(), when);
  for (size_t j = 0; j < pool.size() && j < 60; j++) {
    std::string key = pool[g.U(pool.size())];
    if (g.P(25)) key += "~";
    v = "*";
    const std::string* f = w.Find(key);
    Status s = d.Get(key, &v);
    VCHECK(c, s == (f ? Status::SUCCESS : Status::NOT_FOUND_ERROR) && (!f || v == *f), "mismatch:Get", "%s gives %s %s want %s (%s)", Show(key).c_str(), SS(s).c_str(), Show(v).c_str(), f ? Show(*f).c_str() : "none", when);
    const int op = (int)g.U(5);
    size_t want;  // index + 1; 0 = none
    if (op == 0) { s = it->Jump(key); want = w.Lower(key) + 1; }
    else if (op == 1) { s = it->JumpUpper(key, true); want = w.Lower(key) + 1; }
    else if (op == 2) { s = it->JumpUpper(key, false); want = w.Upper(key) + 1; }
    else if (op == 3) { s = it->JumpLower(key, false); want = w.Lower(key); }
    else { s = it->JumpLower(key, true); want = w.Upper(key); }
    if (want > w.synced.size()) want = 0;
    VCHECK(c, s == Status::SUCCESS, "mismatch:Jump", "op %d %s (%s)", op, SS(s).c_str(), when);
    s = it->Get(&k, &v);
    if (want == 0) { VCHECK(c, s == Status::NOT_FOUND_ERROR, "mismatch:Jump", "op %d to %s gives %s want none (%s)", op, Show(key).c_str(), Show(k).c_str(), when); continue; }
    VCHECK(c, s == Status::SUCCESS && k == w.synced[want - 1].first, "mismatch:Jump", "op %d to %s gives %s %s want %s (%s)", op, Show(key).c_str(), SS(s).c_str(), Show(k).c_str(), Show(w.synced[want - 1].first).c_str(), when);
    size_t pos = op == 4 ? 0 : want - 1;
    if (op != 4) {
      VCHECK(c, v == w.synced[pos].second, "mismatch:Jump", "op %d value (%s)", op, when);
      const int moves = (int)g.U(6);
      bool alive = true;
      for (int mv = 0; mv < moves && alive; mv++) {
        if (g.P(50)) { s = it->Next(); pos++; if (pos >= w.synced.size()) alive = false; }
        else { s = it->Previous(); if (pos == 0) alive = false; else pos--; }
        VCHECK(c, s == Status::SUCCESS, "mismatch:move", "%s (%s)", SS(s).c_str(), when);
        s = it->Get(&k, &v);
        if (alive) VCHECK(c, s == Status::SUCCESS && k == w.synced[pos].first && v == w.synced[pos].second, "mismatch:move", "after a jump and moves %s %s want %s (%s)", SS(s).c_str(), Show(k).c_str(), Show(w.synced[pos].first).c_str(), when);
        else VCHECK(c, s == Status::NOT_FOUND_ERROR, "mismatch:move", "moved off the end but %s (%s)", SS(s).c_str(), when);
      }
    }
  }
  for (int j = 0; j < 20; j++) {
    size_t i = g.P(10) ? w.synced.size() + g.U(3) : g.U(w.synced.size() + 1);
    Status s = d.GetByIndex(i, &k, &v);
    if (i >= w.synced.size()) { VCHECK(c, s == Status::NOT_FOUND_ERROR, "mismatch:GetByIndex", "%zu of %zu gives %s (%s)", i, w.synced.size(), SS(s).c_str(), when); continue; }
    VCHECK(c, s == Status::SUCCESS && k == w.synced[i].first && v == w.synced[i].second, "mismatch:GetByIndex", "%zu of %zu gives %s %s (%s)", i, w.synced.size(), SS(s).c_str(), Show(k).c_str(), when);
  }
  int64_t eff = 0;
  for (auto& kv : w.synced) { eff += kv.first.size() + kv.second.size(); c.Sig(kv.first); c.Sig(kv.second); }
  VCHECK(c, w.in_order_pending() || d.GetEffectiveDataSize() == eff, "mismatch:eff-data-size", "%lld want %lld (%s)", (long long)d.GetEffectiveDataSize(), (long long)eff, when);
  struct Each : DBM::RecordProcessor {
    Recs got;
    int edges = 0;
    std::string_view ProcessFull(std::string_view k, std::string_view v) override { got.emplace_back(std::string(k), std::string(v)); return NOOP; }
    std::string_view ProcessEmpty(std::string_view) override { edges++; return NOOP; }
  } each;
  VCHECK(c, d.ProcessEach(&each, g.P(50)) == Status::SUCCESS && each.got == w.synced && each.edges == 2, "mismatch:ProcessEach", "full pass differs (%s)", when);
  Status s = d.ValidateRecords();
  VCHECK(c, s == Status::SUCCESS, "mismatch:ValidateRecords", "%s (%s)", SS(s).c_str(), when);
  if (w.synced.size() > 2) c.nontrivial = true;
  c.Max("max_records", w.synced.size());
  c.Stat("full_checks");
}

static void Case(Ctx& c, Rng& g, int64_t n) {
  World w(c, g);
  SkipDBM::TuningParameters t;
  auto tune = [&](SkipDBM::TuningParameters* t) {
    t->offset_width = (int)g.Pick({-1, 3, 4, 5, 6});
    t->step_unit = (int)g.Pick({-1, 2, 2, 3, 4, 8, 64});
    t->max_level = (int)g.Pick({-1, 1, 2, 3, 5, 14, 32});
    t->sort_mem_size = g.Pick<int64_t>({-1, 1, 1024, 2000, 10000});
    t->max_cached_records = (int)g.Pick({-1, 1, 2, 10, 1000});
    t->insert_in_order = g.P(30);
  };
  w.tp = &t;
  tune(&t);
  FileCfg fc = FileCfg::Make(g);
  if (fc.kind == 4 && fc.alloc_init == 0) fc.alloc_init = 1;
  const int space = (int)g.Pick({3, 20, 60, 60, 200, 800});
  auto desc = [&] { return fc.Str() + Fmt(" ow=%d su=%d ml=%d sort=%lld cache=%d inorder=%d", t.offset_width, t.step_unit, t.max_level, (long long)t.sort_mem_size, t.max_cached_records, t.insert_in_order); };
  Describe(c, desc() + Fmt(" space=%d", space));
  c.Sig(c.desc);
  KeyGen kg = KeyGen::Make(g, nullptr, space);
  ValGen vg(g);
  const int vkind = (int)g.U(4);
  auto val = [&]() -> std::string { return vkind == 0 ? Fmt("%lld", (long long)g.R(-500, 5000)) : vkind == 1 ? BE(g.U(1 << 20), (int)g.Pick({1, 4, 8})) : vg(g); };
  const std::string path = c.Path("casket.tks");
  auto d = std::make_unique<SkipDBM>(fc.New());
  Status s = d->OpenAdvanced(path, true, File::OPEN_DEFAULT, t);
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  std::string opaque(SkipDBM::OPAQUE_METADATA_SIZE, 0);
  int db_type = 0, seq = 0;
  std::string last_key;  // insert_in_order: the last key given since the last synchronization
  bool has_last = false;
  auto key = [&]() -> std::string {
    if (!t.insert_in_order) return kg(g);
    std::vector<std::string>& p = kg.pool;
    size_t i = has_last ? std::lower_bound(p.begin(), p.end(), last_key) - p.begin() : 0;
    i = std::min(p.size() - 1, i + g.U(std::max<size_t>(1, p.size() / 12)));
    return std::max(p[i], last_key);
  };
  auto note = [&](const std::string& k) { last_key = k; has_last = true; };
  auto fresh = [&] { has_last = false; last_key.clear(); };
  auto meta = [&](const char* when) {
    std::string o = d->GetOpaqueMetadata();
    o.resize(SkipDBM::OPAQUE_METADATA_SIZE);
    VCHECK(c, o == opaque && d->GetDatabaseType() == db_type, "meta", "opaque or type changed %s: %s want %s, type %d want %d", when, Show(o,70).c_str(), Show(opaque,70).c_str(), (int)d->GetDatabaseType(), db_type);
    VCHECK(c, d->IsHealthy() && !d->IsAutoRestored(), "unhealthy", "%s", when);
  };
  const int nops = (int)g.Pick({40, 120, 300, 700});
  for (int op = 0; op < nops; op++) {
    const int r = (int)g.U(100);
    std::string k = key();
    const std::string* cur = w.Find(k);
    if (r < 40) {
      std::string v = val();
      c.T(Fmt("Set(%s,%s)", Show(k, 12).c_str(), Show(v, 12).c_str()));
      s = d->Set(k, v);
      VCHECK(c, s == Status::SUCCESS, "mismatch:Set", "%s", SS(s).c_str());
      w.Put(k, v); note(k);
    } else if (r < 50) {
      c.T(Fmt("Remove(%s)", Show(k, 12).c_str()));
      if (g.P(50)) {  // answers from the synchronized state
        std::string old = "*";
        s = d->Remove(k, &old);
        VCHECK(c, s == (cur ? Status::SUCCESS : Status::NOT_FOUND_ERROR) && (!cur || old == *cur), "mismatch:Remove", "%s old %s", SS(s).c_str(), Show(old).c_str());
        if (cur) { w.Del(k); note(k); }
      } else {
        s = d->Remove(k);
        VCHECK(c, s == Status::SUCCESS, "mismatch:Remove", "%s", SS(s).c_str());
        w.Del(k); note(k);
      }
    } else if (r < 55) {
      std::string v = val(), old = "*";
      const bool ow = g.P(60);
      c.T(Fmt("Set(%s,ow=%d,old)", Show(k, 12).c_str(), ow));
      s = d->Set(k, v, ow, &old);
      VCHECK(c, s == (cur && !ow ? Status::DUPLICATION_ERROR : Status::SUCCESS) && (!cur || old == *cur), "mismatch:SetOld", "ow %d %s existing %d", ow, SS(s).c_str(), cur != nullptr);
      if (!cur || ow) { w.Put(k, v); note(k); }
    } else if (r < 60 && vkind != 0) {
      std::string v = val();
      c.T(Fmt("Append(%s)", Show(k, 12).c_str()));
      s = d->Append(k, v, "+");
      VCHECK(c, s == Status::SUCCESS, "mismatch:Append", "%s", SS(s).c_str());
      w.Put(k, cur ? *cur + "+" + v : v); note(k);
    } else if (r < 64) {
      std::map<std::string, std::string> recs;
      if (t.insert_in_order) recs[k] = val();
      else for (int i = 0; i < 4; i++) recs[kg(g)] = val();
      c.T("SetMulti");
      std::map<std::string_view, std::string_view> rv;
      for (auto& kv : recs) rv[kv.first] = kv.second;
      s = d->SetMulti(rv);
      VCHECK(c, s == Status::SUCCESS, "mismatch:SetMulti", "%s", SS(s).c_str());
      for (auto& kv : recs) { w.Put(kv.first, kv.second); note(kv.first); }
    } else if (r < 67) {
      std::string ev = cur ? *cur : "", dv = val();
      const bool match = g.P(70);
      if (!match) ev += "!";
      c.T(Fmt("CompareExchange(%s)", Show(k, 12).c_str()));
      s = d->CompareExchange(k, cur || !match ? std::string_view(ev) : std::string_view(), dv);
      VCHECK(c, s == (match ? Status::SUCCESS : Status::INFEASIBLE_ERROR), "mismatch:CompareExchange", "%s match %d", SS(s).c_str(), match);
      if (match) { w.Put(k, dv); note(k); }
    } else if (r < 70 && !t.insert_in_order) {
      auto it = d->MakeIterator();
      it->Jump(k);
      size_t i = w.Lower(k);
      for (int j = 0; j < 4; j++) {
        std::string gk, v = val();
        const bool del = g.P(50);
        c.T(Fmt("Iter.%s at %zu", del ? "Remove" : "Set", i));
        s = del ? it->Remove() : it->Set(v);
        if (i >= w.synced.size()) { VCHECK(c, s == Status::NOT_FOUND_ERROR, "mismatch:Iter.Edit", "%s past the end", SS(s).c_str()); break; }
        VCHECK(c, s == Status::SUCCESS, "mismatch:Iter.Edit", "%s", SS(s).c_str());
        if (del) w.Del(w.synced[i].first); else w.Put(w.synced[i].first, v);
        if (del) { i++; } else if (g.P(50)) { it->Next(); i++; }
      }
    } else if (r < 74) {
      int kind = (int)g.U(11);
      if (g.P(30) && w.Numeric()) kind = 8;
      if (kind == 8 && !w.Numeric()) kind = 3;
      c.T(Fmt("Synchronize(%d) with %zu pending %zu merged", kind, w.pending.size(), w.merged.size()));
      int calls = 0;
      struct FP : DBM::FileProcessor { int* n; std::string p; void Process(const std::string& path) override { (*n)++; p = path; } } fp;
      fp.n = &calls;
      s = kind == 0 && g.P(50) ? d->Synchronize(g.P(20), &fp) : d->SynchronizeAdvanced(g.P(20), &fp, kReducers[kind]);
      VCHECK(c, s == Status::SUCCESS && calls == 1 && fp.p == path, "mismatch:Synchronize", "%s calls %d", SS(s).c_str(), calls);
      w.Sync(kind); fresh();
      c.Stat(Fmt("sync_reducer_%d", kind));
      meta("after Synchronize");
      if (g.P(60)) Check(c, g, *d, w, kg.pool, "after Synchronize");
    } else if (r < 76) {
      SkipDBM src(fc.New());
      const std::string sp = c.Path(Fmt("src%d.tks", seq++));
      SkipDBM::TuningParameters st;
      tune(&st);
      st.insert_in_order = false;
      Recs recs;
      const int cnt = (int)g.U(30);
      VCHECK(c, src.OpenAdvanced(sp, true, File::OPEN_DEFAULT, st) == Status::SUCCESS, "open", "source");
      for (int i = 0; i < cnt; i++) { recs.emplace_back(kg(g), val()); src.Set(recs.back().first, recs.back().second); }
      VCHECK(c, src.Close() == Status::SUCCESS, "close", "source");
      std::stable_sort(recs.begin(), recs.end(), [](const std::pair<std::string, std::string>& a, const std::pair<std::string, std::string>& b) { return a.first < b.first; });
      c.T(Fmt("Merge(%d records)", cnt));
      s = d->MergeSkipDatabase(sp);
      VCHECK(c, s == Status::SUCCESS, "mismatch:Merge", "%s", SS(s).c_str());
      w.merged.push_back(recs);
      w.updated = true;
      c.Stat("merges");
    } else if (r < 78) {
      c.T("Revert");
      s = d->Revert();
      VCHECK(c, s == Status::SUCCESS, "mismatch:Revert", "%s", SS(s).c_str());
      w.Drop(); fresh();
      c.Stat("reverts");
    } else if (r < 80) {
      SkipDBM::TuningParameters nt;
      if (g.P(60)) { tune(&nt); nt.insert_in_order = false; }
      c.T(Fmt("Rebuild(%d,%d,%d)", nt.offset_width, nt.step_unit, nt.max_level));
      const bool upd = w.updated;
      s = d->RebuildAdvanced(nt, false, g.P(20));
      VCHECK(c, s == Status::SUCCESS, "mismatch:Rebuild", "%s", SS(s).c_str());
      if (upd) w.Sync(0);
      w.Drop(); fresh();
      meta("after Rebuild");
      Check(c, g, *d, w, kg.pool, "after Rebuild");
      c.Stat("rebuilds");
    } else if (r < 81 && g.P(30)) {
      c.T("Clear");
      s = d->Clear();
      VCHECK(c, s == Status::SUCCESS, "mismatch:Clear", "%s", SS(s).c_str());
      w.synced.clear(); w.Drop(); fresh();
      Check(c, g, *d, w, kg.pool, "after Clear");
      c.Stat("clears");
    } else if (r < 83) {
      if (g.P(50)) { opaque = g.Bytes(SkipDBM::OPAQUE_METADATA_SIZE); d->SetOpaqueMetadata(opaque); }
      else { db_type = (int)g.U(1 << 16); d->SetDatabaseType(db_type); }
    } else if (r < 87) {
      c.T(Fmt("Reopen with %zu pending", w.pending.size()));
      if (g.P(25)) d.reset(); else { s = d->Close(); VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str()); }
      w.Sync(0); fresh();
      for (auto& f : ListDir(c.dir)) VCHECK(c, f.find(".tmp.") == std::string::npos, "leftover", "temporary file %s is left after closing", f.c_str());
      if (g.P(30)) {
        std::string b, a;
        ReadAll(path, &b);
        // A file whose size is not a multiple of the block size cannot be read through a padding access strategy.
        FileCfg rfc = fc;
        if (FileSize(path) % 512 != 0) rfc.block = 0;
        { SkipDBM ro(rfc.New());
          s = ro.Open(path, false);
          VCHECK(c, s == Status::SUCCESS, "open-ro", "%s", SS(s).c_str());
          VCHECK(c, ro.Set("a", "b") == Status::PRECONDITION_ERROR && ro.Synchronize(false) == Status::PRECONDITION_ERROR && ro.Revert() == Status::PRECONDITION_ERROR && ro.Clear() == Status::PRECONDITION_ERROR &&
                 ro.Rebuild() == Status::PRECONDITION_ERROR, "ro-update", "an update was accepted by a read-only database");
          auto it = ro.MakeIterator(); it->First();
          std::string gk, gv; size_t i = 0;
          Status gs(Status::SUCCESS);
          for (; (gs = it->Get(&gk, &gv)) == Status::SUCCESS; i++) { VCHECK(c, i < w.synced.size() && gk == w.synced[i].first && gv == w.synced[i].second, "mismatch:ro-scan", "record %zu", i); it->Next(); }
          VCHECK(c, i == w.synced.size(), "mismatch:ro-scan", "%zu of %zu (%s) with %s", i, w.synced.size(), SS(gs).c_str(), fc.Str().c_str());
        }
        ReadAll(path, &a);
        VCHECK(c, a == b, "ro-file-changed", "read-only session changed the file");
        c.Stat("readonly_sessions");
      }
      if (!d || g.P(50)) { if (g.P(50)) { fc = FileCfg::Make(g); if (fc.kind == 4 && fc.alloc_init == 0) fc.alloc_init = 1; } d = std::make_unique<SkipDBM>(fc.New()); }
      tune(&t);
      s = d->OpenAdvanced(path, true, g.P(30) ? File::OPEN_NO_CREATE : File::OPEN_DEFAULT, t);
      VCHECK(c, s == Status::SUCCESS, "reopen", "%s", SS(s).c_str());
      meta("after reopening");
      Check(c, g, *d, w, kg.pool, "after reopening");
      c.Stat("reopens");
    } else {
      c.T(Fmt("Get(%s)", Show(k, 12).c_str()));
      std::string v;
      s = d->Get(k, &v);
      VCHECK(c, s == (cur ? Status::SUCCESS : Status::NOT_FOUND_ERROR) && (!cur || v == *cur), "mismatch:Get", "%s gives %s", Show(k).c_str(), SS(s).c_str());
    }
    if (g.P(1)) Check(c, g, *d, w, kg.pool, "while pending");
  }
  Check(c, g, *d, w, kg.pool, "end");
  s = d->Synchronize(false);
  VCHECK(c, s == Status::SUCCESS, "mismatch:Synchronize", "%s", SS(s).c_str());
  w.Sync(0);
  Check(c, g, *d, w, kg.pool, "end after Synchronize");
  s = d->Close();
  VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
  c.Stat("ops", nops);
}
int main(int argc, char** argv) { return Main(argc, argv, "C03", Case); }
