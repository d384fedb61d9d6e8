// C26: rebuilding under load keeps every record and all metadata.
#include <list>
#include <thread>
#include "anydb.h"
#include "wrapfile.h"
using namespace vh;
using namespace tkrzw;

struct Err {
  std::mutex mu; std::string key, msg; std::atomic<int> n{0};
  void Add(const std::string& k, const std::string& m) { std::lock_guard<std::mutex> l(mu); if (msg.empty()) { key = k; msg = m; } n++; }
};
typedef std::map<std::string, std::string> SMap;
static std::string Meta(DBM* d, const std::string& name) { for (auto& x : d->Inspect()) if (x.first == name) return x.second; return "?"; }

// What is expected of the metadata; "" means anything.
struct Want {
  uint32_t type; std::string opaque; int upd; std::string crc, comp; int ow, ap; KeyComparator cmp; int page, branches, cached;
};

static void Case(Ctx& c, Rng& g, int64_t) {
  AnyOpt ao;
  ao.classes = {"HashDBM", "TreeDBM"};
  ao.tiny_trees = g.P(70);
  ao.small = g.P(50);
#if __has_feature(thread_sanitizer)
  ao.std_file = false;
#endif
  AnyDB a = AnyDB::Make(g, c.dir, ao);
  const bool tree = a.cls == "TreeDBM";
  HashDBM::TuningParameters& hp = tree ? (HashDBM::TuningParameters&)a.tp : a.hp;
  if (hp.record_comp_mode == HashDBM::RECORD_COMP_LZMA && !g.P(3)) hp.record_comp_mode = HashDBM::RECORD_COMP_ZLIB;  // slow
  if (hp.offset_width < 4) hp.offset_width = 4;
  a.fc.block = 0; a.fc.options = 0;
  const KeyOrder* ord = a.order;
  if (g.P(35)) {
    auto hub = std::make_shared<DelayHub>(g.Next(), (int)g.Pick({1, 4}), (int)g.Pick({20, 60, 150}));
    FileCfg fc = a.fc;
    a.file_maker = [hub, fc] { return std::make_unique<WrapFile>(hub, fc); };
  }
  const int nw = (int)g.R(1, 4), nre = (int)g.Pick({1, 1, 1, 2, 3}), pre = (int)g.Pick({0, 5, 100, 500, 1000}), nops = (int)g.Pick({30, 100, 300});
  const int vmax = (int)g.Pick({10, 60, 300, 1200});
  Describe(c, Fmt("writers=%d rebuilders=%d pre=%d ops=%d vmax=%d ", nw, nre, pre, nops, vmax) + a.desc);
  c.Sig(c.desc);
  // Keys: made by the order; equal keys are the same record.
  std::vector<std::string> keys;
  {
    std::set<std::string, std::function<bool(const std::string&, const std::string&)>> s([&](const std::string& x, const std::string& y) { return ord->ref(x, y) < 0; });
    const int space = (int)g.Pick({20, 100, 500});
    for (int i = 0; i < space; i++) s.insert(ord->make ? ord->make(g, space) : g.P(70) ? Fmt("key%05d", i) : g.Bytes(g.Pick({0, 1, 3, 40, 130})));
    keys.assign(s.begin(), s.end());
    for (size_t i = keys.size(); i > 1; i--) std::swap(keys[i - 1], keys[g.U(i)]);
  }
  auto val = [&](Rng& r, const std::string& tag) { std::string v = tag + ":"; const int n = (int)r.U(vmax + 1); v.resize(v.size() + (r.P(10) ? n * 4 : n), 'a' + (char)r.U(26)); return v; };
  auto d = a.New();
  Status s = a.Open(d.get());
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  auto* h = dynamic_cast<HashDBM*>(d.get());
  auto* t = dynamic_cast<TreeDBM*>(d.get());
  Want want;
  want.type = g.P(50) ? (uint32_t)g.Next() : 0;
  want.opaque = g.Bytes(g.U(tree ? TreeDBM::OPAQUE_METADATA_SIZE + 1 : HashDBM::OPAQUE_METADATA_SIZE + 1));
  if (g.P(30)) want.opaque.clear();
  auto setmeta = [&] {
    Status x = h ? h->SetDatabaseType(want.type) : t->SetDatabaseType(want.type);
    x |= h ? h->SetOpaqueMetadata(want.opaque) : t->SetOpaqueMetadata(want.opaque);
    VCHECK(c, x == Status::SUCCESS, "setmeta", "%s", SS(x).c_str());
  };
  setmeta();
  auto inner = [&](const char* n) { return h ? Meta(d.get(), n) : "?"; };
  want.crc = inner("record_crc_mode");
  want.comp = inner("record_comp_mode");
  want.ow = hp.offset_width; want.ap = hp.align_pow;
  want.upd = h ? (int)h->GetUpdateMode() : 0;
  want.cmp = t ? t->GetKeyComparator() : nullptr;
  if (h && !a.file_maker) {
    // as asked for at the creation
    const int asked = hp.update_mode ? hp.update_mode : (int)HashDBM::UPDATE_IN_PLACE;
    VCHECK(c, want.upd == asked, "mode", "the update mode is %d, asked %d", want.upd, asked);
  }
  // Threads own the keys i % nw; the last tenth is for counters, and some stay as they are.
  SMap model;
  std::vector<SMap> own(nw);
  std::vector<std::string> counters, stay;
  std::vector<std::vector<std::string>> pool(nw);
  for (size_t i = 0; i < keys.size(); i++) {
    if (i % 10 == 9) counters.push_back(keys[i]);
    else if (i % 10 == 8) stay.push_back(keys[i]);
    else pool[i % nw].push_back(keys[i]);
  }
  for (int i = 0; i < pre; i++) {
    const int w = (int)g.U(nw);
    if (pool[w].empty()) continue;
    const std::string& k = g.Pick(pool[w]);
    if (g.P(75)) { const std::string v = val(g, Fmt("p%d", i)); d->Set(k, v); own[w][k] = v; }
    else { d->Remove(k); own[w].erase(k); }
  }
  for (auto& k : stay) { const std::string v = val(g, "stay"); d->Set(k, v); model[k] = v; }
  int64_t size_before = 0;
  d->GetFileSize(&size_before);
  Err err;
  std::vector<std::atomic<int64_t>> adds(counters.size());
  for (auto& x : adds) x = 0;
  std::atomic<int> writers{nw};
  std::atomic<int64_t> during{0}, rebuilds{0}, scans{0};
  std::atomic<int> in_rebuild{0};
  std::vector<std::thread> th;
  for (int w = 0; w < nw; w++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, w, seed] {
      Rng r(seed);
      SMap& m = own[w];
      auto it = d->MakeIterator();
      for (int i = 0; i < nops && err.n == 0; i++) {
        if (in_rebuild) during++;
        const int x = (int)r.U(100);
        if (x < 10 && !counters.empty()) {
          const size_t q = r.U(counters.size());
          int64_t cur = 0;
          Status st = d->Increment(counters[q], 1, &cur);
          if (st != Status::SUCCESS) err.Add("op", "Increment: " + SS(st));
          const int64_t n = ++adds[q];
          (void)n;
          continue;
        }
        if (x < 16 && !stay.empty()) {
          const std::string& k = r.Pick(stay);
          std::string v;
          Status st = d->Get(k, &v);
          if (st != Status::SUCCESS || v != model[k]) err.Add("stay", "a record that stays: " + SS(st) + " " + Show(k));
          continue;
        }
        if (x < 17 && r.P(15)) {
          // Whole scan, or a clear-free ProcessEach: stays must be there
          std::set<std::string> seen;
          Status st = d->ProcessEach([&](std::string_view k, std::string_view) { if (k.data() != DBM::RecordProcessor::NOOP.data()) seen.insert(std::string(k)); return DBM::RecordProcessor::NOOP; }, false);
          if (st != Status::SUCCESS) err.Add("op", "ProcessEach: " + SS(st));
          for (auto& k : stay) if (!seen.count(k)) { err.Add("each", "ProcessEach lacks " + Show(k)); break; }
          for (auto& kv : m) if (!seen.count(kv.first)) { err.Add("each", "ProcessEach lacks the own " + Show(kv.first)); break; }
          scans++;
          continue;
        }
        if (pool[w].empty()) continue;
        const std::string& k = r.Pick(pool[w]);
        const bool has = m.count(k) > 0;
        const std::string cur = has ? m[k] : "";
        Status st(Status::SUCCESS);
        std::string got;
        int wantc = 0;
        if (x < 45) { got = val(r, Fmt("w%d-%d", w, i)); std::string old; st = d->Set(k, got, true, r.P(30) ? &old : nullptr); m[k] = got; }
        else if (x < 50) { const std::string v = val(r, Fmt("n%d-%d", w, i)); st = d->Set(k, v, false); wantc = has ? (int)Status::DUPLICATION_ERROR : 0; if (!has) m[k] = v; }
        else if (x < 65) { st = d->Remove(k, &got); wantc = has ? 0 : (int)Status::NOT_FOUND_ERROR; if (has && got != cur) err.Add("own", "Remove gives another value of " + Show(k)); m.erase(k); }
        else if (x < 75) { const std::string v = val(r, "+"); st = d->Append(k, v, "|"); m[k] = has ? cur + "|" + v : v; }
        else if (x < 80) { const std::string v = val(r, Fmt("x%d-%d", w, i)); st = d->CompareExchange(k, has ? std::string_view(cur) : std::string_view(), v); m[k] = v; }
        else if (x < 85) {
          const std::string& k2 = r.Pick(pool[w]);
          const std::string v = val(r, Fmt("m%d-%d", w, i));
          std::string_view vv = r.P(50) ? std::string_view(v) : DBM::RecordProcessor::REMOVE;
          st = d->ProcessMulti(std::vector<std::pair<std::string_view, DBM::RecordLambdaType>>{{k, [&](std::string_view, std::string_view) -> std::string_view { return v; }}, {k2, [&](std::string_view, std::string_view) -> std::string_view { return vv; }}}, true);
          m[k] = v;
          if (vv.data() == v.data()) m[k2] = v; else m.erase(k2);
        }
        else if (x < 88) {
          // through an iterator
          if (it->Jump(k) == Status::SUCCESS) {
            std::string ik;
            if (it->Get(&ik) == Status::SUCCESS && ik == k) {
              const std::string v = val(r, Fmt("i%d-%d", w, i));
              bool done = false;
              DBM::RecordLambdaType f = [&](std::string_view pk, std::string_view) -> std::string_view { if (pk == k) { done = true; return v; } return DBM::RecordProcessor::NOOP; };
              st = it->Process(f, true);
              // a rebuild cancels the iterator
              if (st == Status::NOT_FOUND_ERROR) st = Status(Status::SUCCESS);
              if (done) m[k] = v;
            }
          }
        }
        else { st = d->Get(k, &got); wantc = has ? 0 : (int)Status::NOT_FOUND_ERROR; if (has && st == Status::SUCCESS && got != cur) err.Add("own", "Get of an own record gives another value: " + Show(k) + " " + Show(got) + " want " + Show(cur)); }
        if (SC(st) != wantc) err.Add("own", Fmt("op %d of an own record (%s) gives %s", x, has ? "there" : "not there", SS(st).c_str()) + " " + Show(k));
      }
      writers--;
    });
  }
  // Rebuilders: one after another, or at the same time. Only one of them changes the tuning.
  std::atomic<bool> inplace_req{false};
  for (int q = 0; q < nre; q++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, q, seed] {
      Rng r(seed);
      for (int i = 0; i < 6 && (writers > 0 || i == 0) && err.n == 0; i++) {
        if (r.P(70)) std::this_thread::sleep_for(std::chrono::microseconds(r.U(2000)));
        in_rebuild++;
        Status st(Status::SUCCESS);
        if (nre == 1 && r.P(70)) {
          HashDBM::TuningParameters ht;
          TreeDBM::TuningParameters tt;
          HashDBM::TuningParameters& p = tree ? (HashDBM::TuningParameters&)tt : ht;
          if (r.P(40)) { p.update_mode = r.P(50) ? HashDBM::UPDATE_IN_PLACE : HashDBM::UPDATE_APPENDING; want.upd = p.update_mode; }
          if (r.P(30)) { p.record_crc_mode = (HashDBM::RecordCRCMode)r.R(1, 4); const char* nm[] = {"", "none", "crc-8", "crc-16", "crc-32"}; want.crc = nm[p.record_crc_mode]; }
          if (r.P(30)) { p.record_comp_mode = (HashDBM::RecordCompressionMode)r.Pick({1, 2, 3, 4, 6, 7}); const char* nm[] = {"", "none", "zlib", "zstd", "lz4", "lzma", "rc4", "aes"}; want.comp = nm[p.record_comp_mode]; if (p.record_comp_mode >= 6) p.cipher_key = "another"; }
          if (r.P(30)) { p.offset_width = (int)r.R(4, 6); want.ow = p.offset_width; }
          if (r.P(30)) { p.align_pow = (int)r.U(7); want.ap = p.align_pow; }
          if (r.P(60)) p.num_buckets = r.Pick<int64_t>({1, 5, 50, 300, 2000});
          if (r.P(20)) p.fbp_capacity = (int)r.Pick({0, 1, 100});
          if (r.P(20)) p.min_read_size = (int)r.Pick({0, 1, 64, 200});
          if (r.P(20)) p.cache_buckets = (int)r.U(2);
          if (tree) {
            if (r.P(50)) tt.max_page_size = (int)r.Pick({50, 200, 1000});
            if (r.P(50)) tt.max_branches = (int)r.Pick({2, 4, 16});
            if (r.P(50)) tt.max_cached_pages = (int)r.Pick({1, 10, 100});
            if (r.P(20)) tt.page_update_mode = r.P(50) ? TreeDBM::PAGE_UPDATE_WRITE : TreeDBM::PAGE_UPDATE_NONE;
          }
          st = tree ? t->RebuildAdvanced(tt, r.P(20), r.P(15)) : h->RebuildAdvanced(ht, r.P(20), r.P(15));
          if (st == Status::SUCCESS && p.cipher_key == "another") hp.cipher_key = "another";
          if (st == Status::SUCCESS && h && p.num_buckets > 0) {
            const int64_t nb = h->CountBuckets();
            if (nb < p.num_buckets || nb > p.num_buckets * 2 + 100) err.Add("buckets", Fmt("%lld buckets after a rebuild asking for %lld", (long long)nb, (long long)p.num_buckets));
          }
        } else {
          st = d->Rebuild();
        }
        in_rebuild--;
        rebuilds++;
        if (st != Status::SUCCESS) err.Add("rebuild", "Rebuild: " + SS(st));
        bool tobe;
        if (r.P(20)) { st = d->ShouldBeRebuilt(&tobe); if (st != Status::SUCCESS) err.Add("rebuild", "ShouldBeRebuilt: " + SS(st)); }
      }
    });
  }
  for (auto& x : th) x.join();
  c.Stat("ops_during_rebuild", during);
  c.Stat("rebuilds", rebuilds);
  c.Stat("scans", scans);
  if (during > 0) { c.nontrivial = true; c.Reach("load_during_rebuild"); }
  if (err.n) c.Fail(err.key, err.msg);
  for (auto& m : own) for (auto& kv : m) model[kv.first] = kv.second;
  for (size_t i = 0; i < counters.size(); i++) if (adds[i]) { int64_t v = htobe64(adds[i].load()); model[counters[i]] = std::string((char*)&v, 8); }
  auto check = [&](const char* when) {
    int64_t n = -1;
    Status st = d->Count(&n);
    VCHECK(c, st == Status::SUCCESS && n == (int64_t)model.size(), "count", "Count is %lld, %zu records must be there (%s)", (long long)n, model.size(), when);
    auto it = d->MakeIterator();
    SMap seen;
    std::string k, v, last;
    st = it->First();
    while ((st = it->Get(&k, &v)) == Status::SUCCESS) {
      VCHECK(c, seen.emplace(k, v).second, "twice", "%s is visited twice (%s)", Show(k).c_str(), when);
      if (tree && seen.size() > 1) VCHECK(c, ord->ref(last, k) < 0, "order", "out of order (%s)", when);
      auto f = model.find(k);
      VCHECK(c, f != model.end(), "resurrected", "%s=%s must not be there (%s)", Show(k).c_str(), Show(v).c_str(), when);
      VCHECK(c, f->second == v, "value", "%s=%s, want %s (%s)", Show(k).c_str(), Show(v).c_str(), Show(f->second).c_str(), when);
      last = k;
      it->Next();
      if (seen.size() > model.size()) break;
    }
    for (auto& kv : model) {
      VCHECK(c, seen.count(kv.first), "lost", "%s is not visited (%s)", Show(kv.first).c_str(), when);
      st = d->Get(kv.first, &v);
      VCHECK(c, st == Status::SUCCESS && v == kv.second, "lost", "Get(%s) gives %s %s (%s)", Show(kv.first).c_str(), SS(st).c_str(), Show(v).c_str(), when);
    }
    for (int i = 0; i < 30; i++) { const std::string& x = g.Pick(keys); if (!model.count(x)) VCHECK(c, d->Get(x) == Status::NOT_FOUND_ERROR, "resurrected", "Get(%s) of a removed record (%s)", Show(x).c_str(), when); }
    c.Eval((int64_t)model.size());
    // Metadata
    VCHECK(c, d->IsHealthy(), "healthy", "%s", when);
    const uint32_t type = h ? h->GetDatabaseType() : t->GetDatabaseType();
    std::string op = h ? h->GetOpaqueMetadata() : t->GetOpaqueMetadata();
    while (!op.empty() && op.back() == 0) op.pop_back();
    std::string wo = want.opaque;
    while (!wo.empty() && wo.back() == 0) wo.pop_back();
    VCHECK(c, type == want.type, "type", "the database type is %u, want %u (%s)", type, want.type, when);
    VCHECK(c, op == wo, "opaque", "the opaque metadata is %s, want %s (%s)", Show(op).c_str(), Show(wo).c_str(), when);
    if (h) {
      VCHECK(c, (int)h->GetUpdateMode() == want.upd, "mode", "the update mode is %d, want %d (%s)", (int)h->GetUpdateMode(), want.upd, when);
      VCHECK(c, Meta(d.get(), "record_crc_mode") == want.crc, "crc", "the CRC mode is %s, want %s (%s)", Meta(d.get(), "record_crc_mode").c_str(), want.crc.c_str(), when);
      VCHECK(c, Meta(d.get(), "record_comp_mode") == want.comp, "comp", "the compression is %s, want %s (%s)", Meta(d.get(), "record_comp_mode").c_str(), want.comp.c_str(), when);
      VCHECK(c, Meta(d.get(), "offset_width") == Fmt("%d", want.ow), "width", "the offset width is %s, want %d (%s)", Meta(d.get(), "offset_width").c_str(), want.ow, when);
      VCHECK(c, Meta(d.get(), "align_pow") == Fmt("%d", want.ap), "align", "the alignment is %s, want %d (%s)", Meta(d.get(), "align_pow").c_str(), want.ap, when);
    } else {
      VCHECK(c, t->GetKeyComparator() == want.cmp, "comparator", "the comparator changed (%s)", when);
    }
    VCHECK(c, d->GetFilePathSimple() == a.path, "path", "%s (%s)", d->GetFilePathSimple().c_str(), when);
    for (auto& f : ListDir(c.dir)) VCHECK(c, f.find(".tmp.") == std::string::npos, "leftover", "%s is left (%s)", f.c_str(), when);
  };
  check("after the load");
  auto reopen = [&](const char* when) {
    s = a.Close(d.get());
    VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
    if (g.P(50)) { d = a.New(); h = dynamic_cast<HashDBM*>(d.get()); t = dynamic_cast<TreeDBM*>(d.get()); }
    s = a.Open(d.get(), true);
    VCHECK(c, s == Status::SUCCESS, "open", "%s %s", when, SS(s).c_str());
    const bool restored = h ? h->IsAutoRestored() : t->IsAutoRestored();
    VCHECK(c, !restored, "restored", "reopening restores (%s)", when);
    check(when);
  };
  if (g.P(60)) reopen("reopened");
  // A quiet rebuild leaves nothing but live records: a database made afresh is not smaller.
  s = d->Rebuild();
  VCHECK(c, s == Status::SUCCESS, "rebuild", "the last Rebuild: %s", SS(s).c_str());
  check("last rebuild");
  int64_t z1 = 0, z2 = 0;
  d->GetFileSize(&z1);
  if (h) {
    const int64_t nb = h->CountBuckets();
    HashDBM f(a.fc.New());
    HashDBM::TuningParameters p = hp;
    p.num_buckets = nb;
    p.offset_width = want.ow; p.align_pow = want.ap;
    p.update_mode = HashDBM::UPDATE_APPENDING;
    const std::map<std::string, int> crc = {{"none", 1}, {"crc-8", 2}, {"crc-16", 3}, {"crc-32", 4}}, comp = {{"none", 1}, {"zlib", 2}, {"zstd", 3}, {"lz4", 4}, {"lzma", 5}, {"rc4", 6}, {"aes", 7}};
    VCHECK(c, crc.count(want.crc) && comp.count(want.comp), "modes", "%s %s", want.crc.c_str(), want.comp.c_str());
    p.record_crc_mode = (HashDBM::RecordCRCMode)crc.at(want.crc);
    p.record_comp_mode = (HashDBM::RecordCompressionMode)comp.at(want.comp);
    s = f.OpenAdvanced(c.dir + "/fresh", true, File::OPEN_TRUNCATE, p);
    VCHECK(c, s == Status::SUCCESS, "fresh", "%s", SS(s).c_str());
    for (auto& kv : model) f.Set(kv.first, kv.second);
    f.GetFileSize(&z2);
    const int64_t slack = 64 + 16 * (int64_t)model.size();  // encrypted or compressed sizes vary a little
    VCHECK(c, z1 <= z2 + (want.comp == "none" ? 0 : slack), "size", "%lld bytes after a rebuild, %lld for a fresh database with the same records", (long long)z1, (long long)z2);
    c.Reach("size_compared");
  }
  s = d->Rebuild();
  d->GetFileSize(&z2);
  VCHECK(c, s == Status::SUCCESS && z2 <= z1 + (h && want.comp == "none" ? 0 : 4096 + z1 / 4), "size", "%s: %lld bytes after one more rebuild, %lld before", SS(s).c_str(), (long long)z2, (long long)z1);
  reopen("reopened at the end");
  s = a.Close(d.get());
  VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
  c.Max("records", (int64_t)model.size());
}
int main(int argc, char** argv) { return vh::Main(argc, argv, "C26", Case); }
