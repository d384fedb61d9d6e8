// C01: HashDBM is an exact map under every tuning and history.
#include "factory.h"
#include "script.h"
using namespace vh;

static void Case(Ctx& c, Rng& g, int64_t n) {
  HashDBM::TuningParameters t;
  RandHashParams(g, &t);
  FileCfg fc = FileCfg::Make(g);
  if (fc.kind == 4 && fc.alloc_init == 0) fc.alloc_init = 1;
  const int space = (int)g.Pick({3, 10, 30, 100, 300});
  Describe(c, fc.Str() + " " + HashParamsStr(t) + Fmt(" space=%d", space));
  c.Sig(c.desc);
  KeyGen kg = KeyGen::Make(g, nullptr, space);
  ValGen vg(g);
  Model m(false);
  const std::string path = c.Path("casket.tkh");
  auto d = std::make_unique<HashDBM>(fc.New());
  Status s = d->OpenAdvanced(path, true, File::OPEN_DEFAULT, t);
  VCHECK(c, s == Status::SUCCESS, "open", "first open: %s", SS(s).c_str());
  std::string opaque(HashDBM::OPAQUE_METADATA_SIZE, 0);
  int db_type = 0;
  ScriptOptions o;
  o.nops = (int)g.Pick({60, 200, 400, 800});
  const int64_t max_size = t.offset_width == 3 && t.align_pow == 0 ? (1 << 24) : INT64_MAX;
  auto set_opaque = [&] {
    if (g.P(50)) {
      opaque = g.Bytes(HashDBM::OPAQUE_METADATA_SIZE);
      Status s2 = d->SetOpaqueMetadata(opaque);
      VCHECK(c, s2 == Status::SUCCESS, "opaque", "SetOpaqueMetadata %s", SS(s2).c_str());
    } else {
      db_type = (int)g.U(256);
      Status s2 = d->SetDatabaseType(db_type);
      VCHECK(c, s2 == Status::SUCCESS, "opaque", "SetDatabaseType %s", SS(s2).c_str());
    }
    c.T("SetMeta");
  };
  auto check_meta = [&](const char* when) {
    VCHECK(c, d->GetOpaqueMetadata() == opaque, "meta:opaque", "opaque metadata changed %s", when);
    VCHECK(c, d->GetDatabaseType() == db_type, "meta:type", "database type %d, want %d %s", d->GetDatabaseType(), db_type, when);
  };
  auto check_sizes = [&](const char* when) {
    int64_t eff = d->GetEffectiveDataSize();
    VCHECK(c, eff >= 0, "eff", "effective data size %lld", (long long)eff);
    if (t.record_comp_mode == HashDBM::RECORD_COMP_NONE || t.record_comp_mode == HashDBM::RECORD_COMP_DEFAULT)
      VCHECK(c, eff == m.DataSize(), "mismatch:eff-data-size", "effective data size %lld, want %lld %s", (long long)eff, (long long)m.DataSize(), when);
    Status s3 = d->ValidateHashBuckets();
    VCHECK(c, s3 == Status::SUCCESS, "validate:buckets", "ValidateHashBuckets %s %s", SS(s3).c_str(), when);
    s3 = d->ValidateRecords(-1, -1);
    VCHECK(c, s3 == Status::SUCCESS, "validate:records", "ValidateRecords %s %s", SS(s3).c_str(), when);
    VCHECK(c, d->IsHealthy() && !d->IsAutoRestored(), "unhealthy", "healthy %d restored %d %s", d->IsHealthy(), d->IsAutoRestored(), when);
    int64_t used = d->CountUsedBuckets();
    VCHECK(c, used >= (m.m.empty() ? 0 : 1) && used <= d->CountBuckets(), "buckets", "used %lld of %lld", (long long)used, (long long)d->CountBuckets());
  };
  o.extra = [&](Rng&) { if (g.P(50)) set_opaque(); check_sizes("extra"); check_meta("extra"); };
  o.do_rebuild = [&](Rng& g2, std::string* what) {
    HashDBM::TuningParameters nt;
    if (g2.P(50)) {
      RandHashParams(g2, &nt);
      nt.cipher_key = t.cipher_key;
      if (g2.P(50)) nt.record_comp_mode = HashDBM::RECORD_COMP_DEFAULT;
      if (nt.record_comp_mode != HashDBM::RECORD_COMP_DEFAULT) t.record_comp_mode = nt.record_comp_mode;
      *what = HashParamsStr(nt);
    } else nt.cipher_key = t.cipher_key;
    Status r = g2.P(30) && what->empty() && t.cipher_key.empty() ? d->Rebuild() : d->RebuildAdvanced(nt, g2.P(30), false);
    if (r == Status::SUCCESS) { check_meta("after rebuild"); check_sizes("after rebuild"); }
    return r;
  };
  o.do_reopen = [&](Rng& g2, std::string* what) -> DBM* {
    const bool fresh = g2.P(50);
    const bool destroy = g2.P(25);
    if (destroy && fresh) { d.reset(); }
    else { Status s2 = d->Close(); VCHECK(c, s2 == Status::SUCCESS, "close", "%s", SS(s2).c_str()); }
    if (g2.P(40)) {
      // Read-only session: nothing may change in the file.
      std::string before, after;
      ReadAll(path, &before);
      { FileCfg f2 = FileCfg::Make(g2);

        HashDBM r(f2.New());
        HashDBM::TuningParameters rt; rt.cipher_key = t.cipher_key;
        Status s2 = r.OpenAdvanced(path, false, File::OPEN_DEFAULT, rt);
        VCHECK(c, s2 == Status::SUCCESS, "open-ro", "%s", SS(s2).c_str());
        const std::string k = kg(g2);
        VCHECK(c, r.Set(k, "x") == Status::PRECONDITION_ERROR && r.Remove(k) == Status::PRECONDITION_ERROR && r.Clear() == Status::PRECONDITION_ERROR &&
               r.Rebuild() == Status::PRECONDITION_ERROR && r.Synchronize(false) == Status::PRECONDITION_ERROR && r.Append(k, "x") == Status::PRECONDITION_ERROR,
               "ro-update", "an update was accepted by a read-only database");
        VCHECK(c, r.CountSimple() == (int64_t)m.m.size(), "mismatch:count", "read-only count %lld want %zu", (long long)r.CountSimple(), m.m.size());
        for (auto& kv : m.m) { std::string v; Status gs = r.Get(kv.first, &v); VCHECK(c, gs == Status::SUCCESS && v == kv.second, "mismatch:ro-get", "%s %s", Show(kv.first).c_str(), SS(gs).c_str()); }
        VCHECK(c, r.GetOpaqueMetadata() == opaque && r.GetDatabaseType() == db_type, "meta:reopen", "metadata lost (read-only open)");
        if (g2.P(70)) r.Close();
      }
      ReadAll(path, &after);
      VCHECK(c, before == after, "ro-file-changed", "read-only session changed the file (%zu -> %zu bytes)", before.size(), after.size());
      c.Stat("readonly_sessions");
    }
    if (fresh || !d) {
      fc = FileCfg::Make(g2);
      d = std::make_unique<HashDBM>(fc.New());
      *what = fc.Str();
    }
    HashDBM::TuningParameters nt;
    nt.cipher_key = t.cipher_key;
    if (g2.P(50)) { nt.fbp_capacity = (int)g2.Pick({-1, 0, 1, 3, 64}); nt.min_read_size = (int)g2.Pick({-1, 1, 30, 200}); nt.cache_buckets = (int)g2.Pick({-1, 0, 1}); }
    if (g2.P(20)) nt.update_mode = g2.P(50) ? HashDBM::UPDATE_IN_PLACE : HashDBM::UPDATE_APPENDING;
    Status s2 = d->OpenAdvanced(path, true, g2.P(20) ? File::OPEN_NO_CREATE : File::OPEN_DEFAULT, nt);
    VCHECK(c, s2 == Status::SUCCESS, "reopen", "%s", SS(s2).c_str());
    check_meta("after reopen");
    check_sizes("after reopen");
    return d.get();
  };
  (void)max_size;
  Script sc(c, g, d.get(), m, kg, vg, o);
  sc.Run();
  check_sizes("end");
  check_meta("end");
  s = d->Close();
  VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
  c.Stat("ops", o.nops);
}
int main(int argc, char** argv) { return Main(argc, argv, "C01", Case); }
