// C02: TreeDBM is an exact ordered map under every tuning and history.
#include "factory.h"
#include "script.h"
using namespace vh;

static void Case(Ctx& c, Rng& g, int64_t n) {
  TreeDBM::TuningParameters t;
  const KeyOrder* order;
  RandTreeParams(g, &t, &order);
  FileCfg fc = FileCfg::Make(g);
  if (fc.kind == 4 && fc.alloc_init == 0) fc.alloc_init = 1;
  const int space = (int)g.Pick({5, 30, 100, 100, 300, 1000});
  Describe(c, fc.Str() + " " + TreeParamsStr(t, order) + Fmt(" space=%d", space));
  c.Sig(c.desc);
  KeyGen kg = KeyGen::Make(g, order, space);
  ValGen vg(g);
  std::vector<std::string> sorted = kg.pool;
  std::sort(sorted.begin(), sorted.end(), [&](const std::string& a, const std::string& b) { return order->ref(a, b) < 0; });
  Model m(true, order->ref);
  const std::string path = c.Path("casket.tkt");
  auto d = std::make_unique<TreeDBM>(fc.New());
  Status s = d->OpenAdvanced(path, true, File::OPEN_DEFAULT, t);
  VCHECK(c, s == Status::SUCCESS, "open", "first open: %s", SS(s).c_str());
  std::string opaque(TreeDBM::OPAQUE_METADATA_SIZE, 0);
  int db_type = 0;
  ScriptOptions o;
  o.nops = (int)g.Pick({60, 200, 400, 800});
  o.full_check_every = 100;
  o.push_last = order->name == "lexical" || order->name == "sbe";
  auto check_meta = [&](const char* when) {
    VCHECK(c, d->GetOpaqueMetadata() == opaque, "meta:opaque", "opaque metadata changed %s", when);
    VCHECK(c, d->GetDatabaseType() == db_type, "meta:type", "database type %d, want %d %s", d->GetDatabaseType(), db_type, when);
    VCHECK(c, d->GetKeyComparator() == order->comp, "meta:comparator", "comparator changed %s", when);
    VCHECK(c, d->IsHealthy() && !d->IsAutoRestored(), "unhealthy", "healthy %d restored %d %s", d->IsHealthy(), d->IsAutoRestored(), when);
    int64_t eff = d->GetEffectiveDataSize();
    VCHECK(c, eff == m.DataSize(), "mismatch:eff-data-size", "effective data size %lld, want %lld %s", (long long)eff, (long long)m.DataSize(), when);
  };
  auto bulk = [&](Rng& g2) {
    if (sorted.empty()) return;
    const size_t a = g2.U(sorted.size()), len = 1 + g2.U(g2.P(30) ? sorted.size() : 40), b = std::min(sorted.size(), a + len);
    const int kind = (int)g2.U(5);
    c.T(Fmt("Bulk(%d,%zu,%zu)", kind, a, b));
    auto put = [&](size_t i) { std::string v = vg(g2); Status r = d->Set(sorted[i], v); VCHECK(c, r == Status::SUCCESS, "mismatch:Set", "%s", SS(r).c_str()); m.Set(sorted[i], v); };
    auto del = [&](size_t i) { Status r = d->Remove(sorted[i]); VCHECK(c, r == (m.Get(sorted[i]) ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "mismatch:Remove", "%s", SS(r).c_str()); m.Remove(sorted[i]); };
    if (kind == 0) for (size_t i = a; i < b; i++) put(i);
    else if (kind == 1) for (size_t i = b; i > a; i--) put(i - 1);
    else if (kind == 2) for (size_t i = a; i < b; i++) del(i);
    else if (kind == 3) for (size_t i = b; i > a; i--) del(i - 1);
    else {
      auto it = d->MakeIterator();
      Status r = it->Jump(sorted[a]);
      VCHECK(c, r == Status::SUCCESS, "mismatch:Jump", "%s", SS(r).c_str());
      for (size_t i = a; i < b; i++) {
        auto mi = m.m.lower_bound(sorted[a]);
        std::string k;
        r = it->Remove(&k);
        if (mi == m.m.end()) { VCHECK(c, r == Status::NOT_FOUND_ERROR, "mismatch:Iter.Remove", "%s past the end", SS(r).c_str()); break; }
        VCHECK(c, r == Status::SUCCESS && k == mi->first, "mismatch:Iter.Remove", "%s removed %s want %s", SS(r).c_str(), Show(k).c_str(), Show(mi->first).c_str());
        m.m.erase(mi);
      }
    }
    c.Stat("bulk");
  };
  o.extra = [&](Rng& g2) {
    const int w = (int)g2.U(4);
    if (w == 0) {
      if (g2.P(50)) {
        opaque = g2.Bytes(TreeDBM::OPAQUE_METADATA_SIZE);
        Status r = d->SetOpaqueMetadata(opaque); VCHECK(c, r == Status::SUCCESS, "opaque", "SetOpaqueMetadata %s", SS(r).c_str());
      } else { db_type = (int)g2.U(256); Status r = d->SetDatabaseType(db_type); VCHECK(c, r == Status::SUCCESS, "opaque", "SetDatabaseType %s", SS(r).c_str()); }
      c.T("SetMeta");
    } else bulk(g2);
    check_meta("extra");
    if (g2.P(30)) {
      Status r = d->Synchronize(false); VCHECK(c, r == Status::SUCCESS, "sync", "%s", SS(r).c_str());
      r = d->ValidateHashBuckets(); VCHECK(c, r == Status::SUCCESS, "validate:buckets", "%s", SS(r).c_str());
      r = d->ValidateRecords(-1, -1); VCHECK(c, r == Status::SUCCESS, "validate:records", "%s", SS(r).c_str());
    }
  };
  o.on_step = [&](Rng& g2) { if (g2.P(2)) bulk(g2); };
  o.do_rebuild = [&](Rng& g2, std::string* what) {
    TreeDBM::TuningParameters nt;
    if (g2.P(50)) {
      const KeyOrder* ignored;
      RandTreeParams(g2, &nt, &ignored);
      if (g2.P(50)) nt.record_comp_mode = HashDBM::RECORD_COMP_DEFAULT;
      *what = TreeParamsStr(nt, ignored);
    }
    nt.cipher_key = t.cipher_key;
    if (g2.P(70)) nt.key_comparator = nullptr;
    Status r = g2.P(30) && what->empty() && t.cipher_key.empty() ? d->Rebuild() : d->RebuildAdvanced(nt, g2.P(30), false);
    if (r == Status::SUCCESS) check_meta("after rebuild");
    return r;
  };
  o.do_reopen = [&](Rng& g2, std::string* what) -> DBM* {
    const bool fresh = g2.P(50);
    if (g2.P(25) && fresh) d.reset();
    else { Status s2 = d->Close(); VCHECK(c, s2 == Status::SUCCESS, "close", "%s", SS(s2).c_str()); }
    if (g2.P(40)) {
      std::string before, after;
      ReadAll(path, &before);
      { FileCfg f2 = FileCfg::Make(g2);

        TreeDBM r(f2.New());
        TreeDBM::TuningParameters rt; rt.cipher_key = t.cipher_key; rt.max_cached_pages = (int)g2.Pick({-1, 1, 64});
        Status s2 = r.OpenAdvanced(path, false, File::OPEN_DEFAULT, rt);
        VCHECK(c, s2 == Status::SUCCESS, "open-ro", "%s", SS(s2).c_str());
        const std::string k = kg(g2);
        VCHECK(c, r.Set(k, "x") == Status::PRECONDITION_ERROR && r.Remove(k) == Status::PRECONDITION_ERROR && r.Clear() == Status::PRECONDITION_ERROR &&
               r.Rebuild() == Status::PRECONDITION_ERROR && r.Synchronize(false) == Status::PRECONDITION_ERROR && r.Append(k, "x") == Status::PRECONDITION_ERROR,
               "ro-update", "an update was accepted by a read-only database");
        VCHECK(c, r.CountSimple() == (int64_t)m.m.size(), "mismatch:count", "read-only count %lld want %zu", (long long)r.CountSimple(), m.m.size());
        auto it = r.MakeIterator();
        it->First();
        auto mi = m.m.begin();
        std::string k2, v2;
        while (it->Get(&k2, &v2) == Status::SUCCESS) {
          VCHECK(c, mi != m.m.end() && k2 == mi->first && v2 == mi->second, "mismatch:ro-scan", "read-only scan differs at %s", Show(k2).c_str());
          ++mi; it->Next();
        }
        VCHECK(c, mi == m.m.end(), "mismatch:ro-scan", "read-only scan ends early");
        if (g2.P(70)) r.Close();
      }
      ReadAll(path, &after);
      VCHECK(c, before == after, "ro-file-changed", "read-only session changed the file (%zu -> %zu bytes)", before.size(), after.size());
      c.Stat("readonly_sessions");
    }
    if (fresh || !d) { fc = FileCfg::Make(g2); d = std::make_unique<TreeDBM>(fc.New()); *what = fc.Str(); }
    TreeDBM::TuningParameters nt;
    nt.cipher_key = t.cipher_key;
    if (g2.P(50)) { nt.fbp_capacity = (int)g2.Pick({-1, 0, 1, 3, 64}); nt.min_read_size = (int)g2.Pick({-1, 1, 30, 200}); nt.cache_buckets = (int)g2.Pick({-1, 0, 1});
      nt.max_cached_pages = (int)g2.Pick({-1, 1, 10, 100}); nt.page_update_mode = (TreeDBM::PageUpdateMode)g2.U(3); }
    if (g2.P(30)) nt.max_page_size = 77;
    Status s2 = d->OpenAdvanced(path, true, g2.P(20) ? File::OPEN_NO_CREATE : File::OPEN_DEFAULT, nt);
    VCHECK(c, s2 == Status::SUCCESS, "reopen", "%s", SS(s2).c_str());
    check_meta("after reopen");
    return d.get();
  };
  Script sc(c, g, d.get(), m, kg, vg, o);
  sc.Run();
  check_meta("end");
  int level = -1;
  for (auto& kv : d->Inspect()) if (kv.first == "tree_level") level = atoi(kv.second.c_str());
  c.Max("tree_level", level);
  s = d->Close();
  VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
  c.Stat("ops", o.nops);
}
int main(int argc, char** argv) { return Main(argc, argv, "C02", Case); }
