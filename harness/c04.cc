// C04: on-memory databases are exact maps and reload exactly what they saved.
#include "factory.h"
#include "script.h"
using namespace vh;

static const char* kNames[] = {"TinyDBM", "BabyDBM", "StdHashDBM", "StdTreeDBM"};

static void Case(Ctx& c, Rng& g, int64_t n) {
  const int cls = (int)g.U(4);
  const bool ordered = cls == 1 || cls == 3;
  const KeyOrder* order = &KeyOrders()[cls == 1 && g.P(45) ? g.U(KeyOrders().size()) : 0];
  const bool bound = g.P(80);
  FileCfg fc = FileCfg::Make(g);
  if (fc.block > 0 && (fc.options & PositionalFile::ACCESS_PADDING)) fc.block = 0;  // padding is for direct I/O of the other formats
  int64_t nb = g.Pick<int64_t>({-1, 1, 2, 7, 100, 1000});
  const int space = (int)g.Pick({3, 10, 30, 100, 300, 1500, 4000});
  Describe(c, Fmt("%s order=%s buckets=%lld bound=%d space=%d ", kNames[cls], order->name.c_str(), (long long)nb, bound, space) + fc.Str());
  c.Sig(c.desc);
  KeyGen kg = KeyGen::Make(g, order, space);
  ValGen vg(g);
  Model m(ordered, order->ref);
  const std::string path = c.Path("casket.flat");
  auto make = [&](bool file) -> std::unique_ptr<DBM> {
    switch (cls) {
      case 0: return file ? std::make_unique<TinyDBM>(fc.New(), nb) : std::make_unique<TinyDBM>(nb);
      case 1: return file ? std::make_unique<BabyDBM>(fc.New(), order->comp) : std::make_unique<BabyDBM>(order->comp);
      case 2: return file ? std::make_unique<StdHashDBM>(fc.New(), nb) : std::make_unique<StdHashDBM>(nb);
      default: return file ? std::make_unique<StdTreeDBM>(fc.New()) : std::make_unique<StdTreeDBM>();
    }
  };
  auto d = make(bound);
  auto open = [&](DBM* x, bool wr, int opt) { return x->Open(path, wr, opt); };
  if (bound) { Status s = open(d.get(), true, File::OPEN_DEFAULT); VCHECK(c, s == Status::SUCCESS, "open", "first open: %s", SS(s).c_str()); }
  ScriptOptions o;
  o.opened = bound;
  o.push_last = order->name == "lexical" || order->name == "sbe";
  o.nops = (int)g.Pick({60, 200, 400, 800});
  o.reopen = bound;
  auto fill = [&](Rng& g2) {
    // Ascending, descending or random runs of insertions and removals make pages divide and merge.
    const size_t p = kg.pool.size(), len = 1 + g2.U(std::min<size_t>(p, 400));
    size_t i = g2.U(p);
    const int dir = (int)g2.U(3), del = (int)g2.Pick({0, 20, 100});
    c.T(Fmt("Run(%zu,%zu,dir%d,del%d)", i, len, dir, del));
    for (size_t k = 0; k < len; k++, i = dir == 0 ? (i + 1) % p : dir == 1 ? (i + p - 1) % p : g2.U(p)) {
      const std::string& key = kg.pool[i];
      if (g2.P(del)) {
        Status s = d->Remove(key);
        VCHECK(c, SC(s) == (m.Remove(key) ? Script::OK : Script::NF), "mismatch:Remove", "%s", SS(s).c_str());
      } else {
        std::string v = vg(g2);
        Status s = d->Set(key, v);
        VCHECK(c, s == Status::SUCCESS, "mismatch:Set", "%s", SS(s).c_str());
        m.Set(key, v);
      }
    }
  };
  o.on_step = [&](Rng& g2) { if (g2.P(3)) fill(g2); };
  o.do_rebuild = [&](Rng& g2, std::string* what) {
    if (cls == 0 && g2.P(60)) { nb = g2.Pick<int64_t>({-1, 1, 3, 50, 997}); *what = Fmt("%lld", (long long)nb); return static_cast<TinyDBM*>(d.get())->RebuildAdvanced(nb); }
    if (cls == 2 && g2.P(30)) return d->Rebuild();
    return d->Rebuild();
  };
  // Reads the file as it is now with a fresh database, in read-only mode: it must hold exactly the model.
  auto check_file = [&](Rng& g2, const char* when) {
    std::string before, after;
    ReadAll(path, &before);
    {
      auto r = make(true);
      Status s = r->Open(path, false, File::OPEN_DEFAULT);
      VCHECK(c, s == Status::SUCCESS, "open-ro", "%s (%s)", SS(s).c_str(), when);
      VCHECK(c, r->CountSimple() == (int64_t)m.m.size(), "mismatch:saved-count", "saved %lld records, want %zu (%s)", (long long)r->CountSimple(), m.m.size(), when);
      Content got;
      auto it = r->MakeIterator();
      it->First();
      std::string k, v;
      std::vector<std::string> ord;
      while (it->Step(&k, &v) == Status::SUCCESS) { got.emplace(k, v); ord.push_back(k); }
      std::string df = DiffContent(ToContent(m), got);
      VCHECK(c, df.empty(), "mismatch:saved-content", "%s (%s)", df.c_str(), when);
      VCHECK(c, !r->IsWritable() && r->IsOpen() && r->IsHealthy(), "ro-flags", "flags of a read-only database");
      r->Set(kg(g2), "read only sessions never reach the file");
      if (g2.P(70)) r->Close();
    }
    ReadAll(path, &after);
    VCHECK(c, before == after, "ro-file-changed", "a read-only session changed the file");
    VCHECK(c, !Exists(path + ".tmp.export"), "leftover", "temporary file left");
    c.Stat("saved_files_checked");
  };
  o.extra = [&](Rng& g2) {
    if (!bound || fc.block > 1) return;  // with blocks, an open file has an unused tail
    struct FP : DBM::FileProcessor { std::string p; int n = 0; void Process(const std::string& x) override { p = x; n++; } } fp;
    Status s = d->Synchronize(g2.P(20), g2.P(50) ? &fp : nullptr);
    VCHECK(c, s == Status::SUCCESS, "sync", "%s", SS(s).c_str());
    VCHECK(c, fp.n == 0 || (fp.n == 1 && fp.p == path), "sync-proc", "file processor called %d times with %s", fp.n, fp.p.c_str());
    // The file is copied aside because the writer holds its lock.
    std::string img;
    ReadAll(path, &img);
    const std::string side = c.Path("side");
    WriteAll(side, img);
    auto r = make(true);
    s = r->Open(side, true, File::OPEN_DEFAULT);
    VCHECK(c, s == Status::SUCCESS, "open-side", "%s", SS(s).c_str());
    Content got;
    auto it = r->MakeIterator();
    it->First();
    std::string k, v;
    while (it->Step(&k, &v) == Status::SUCCESS) got.emplace(k, v);
    std::string df = DiffContent(ToContent(m), got);
    VCHECK(c, df.empty(), "mismatch:synchronized-content", "%s", df.c_str());
    c.Stat("synchronized_images");
  };
  o.do_reopen = [&](Rng& g2, std::string* what) -> DBM* {
    const bool fresh = g2.P(60);
    if (g2.P(25) && fresh) d.reset();
    else {
      Status s = d->Close();
      VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
      VCHECK(c, d->CountSimple() <= 0 && !d->IsOpen(), "closed-records", "records remain after Close");
    }
    if (g2.P(60)) check_file(g2, "after close");
    if (fresh || !d) {
      fc = FileCfg::Make(g2);
      if (fc.block > 0 && (fc.options & PositionalFile::ACCESS_PADDING)) fc.block = 0;
      nb = g2.Pick<int64_t>({-1, 1, 20, 333});
      d = make(true);
      *what = fc.Str();
    }
    Status s = d->Open(path, true, g2.P(30) ? File::OPEN_NO_CREATE : File::OPEN_DEFAULT);
    VCHECK(c, s == Status::SUCCESS, "reopen", "%s", SS(s).c_str());
    if (g2.P(8)) {
      s = d->Close();
      VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
      s = d->Open(path, true, File::OPEN_TRUNCATE);
      VCHECK(c, s == Status::SUCCESS, "reopen", "truncate %s", SS(s).c_str());
      m.m.clear();
      *what += " truncate";
    }
    return d.get();
  };
  Script sc(c, g, d.get(), m, kg, vg, o);
  if (g.P(50)) fill(g);
  sc.Run();
  if (bound) {
    Status s = d->Close();
    VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
    check_file(g, "at the end");
  }
  c.Stat("ops", o.nops);
  c.Reach(kNames[cls]);
}
int main(int argc, char** argv) { return Main(argc, argv, "C04", Case); }
