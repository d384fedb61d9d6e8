// C13: whole-file replacement is atomic under process death and failing calls at any step.
#include "sysfault.h"
#include "crash.h"
#include "tkrzw_file_util.h"
using namespace vh;

typedef std::vector<std::pair<std::string, std::string>> Recs;
enum Kind { TINY, BABY, CACHE, STDHASH, STDTREE, SKIP, HASH, TREE, WRITEFILE, NKINDS };
static const char* kNames[] = {"TinyDBM", "BabyDBM", "CacheDBM", "StdHashDBM", "StdTreeDBM", "SkipDBM", "HashDBM", "TreeDBM", "WriteFileAtomic"};

// Lets the nth operation (and maybe all later ones) fail, or takes images before operations.
class Hub : public FileHub {
 public:
  std::function<void(const std::string&)> at;
  bool on = false, sticky = false, reads = false;
  int64_t n = 0, fail_at = -1;
  std::string failed;
  std::mutex mu;
  bool Step(const std::string& what, bool mutates) {
    if (!on) return true;
    if (at) { if (mutates) at(what); return true; }
    const int64_t i = n++;
    if (fail_at < 0 || i < fail_at || (i > fail_at && !sticky)) return true;
    if (failed.empty()) failed = what;
    return false;
  }
  Status Before(File*, const FileOp& op) override {
    if (op.kind == FileOp::READ && !reads) return Status(Status::SUCCESS);
    std::lock_guard<std::mutex> l(mu);
    if (Step(Fmt("%s(%lld,%zu)", CrashHub::Name(op.kind), (long long)op.off, op.size), op.kind != FileOp::READ)) return Status(Status::SUCCESS);
    return Status(Status::SYSTEM_ERROR, "injected");
  }
  void Sys(bool x) {
    if (!x) { g_sys_before = nullptr; return; }
    g_sys_before = [this](const char* call, const char* p) { std::lock_guard<std::mutex> l(mu); return Step(std::string(call) + "(" + p + ")", true); };
  }
};

struct World {
  Ctx& c; Rng& g;
  Kind kind;
  FileCfg fc;
  HashDBM::TuningParameters hp;
  TreeDBM::TuningParameters tp;
  SkipDBM::TuningParameters sp;
  const KeyOrder* order = nullptr;
  std::string dir, path, cdir, cpath;
  std::shared_ptr<Hub> hub = std::make_shared<Hub>();
  bool meta() const { return kind == SKIP || kind == HASH || kind == TREE; }
  bool sorted() const { return kind == SKIP; }

  std::unique_ptr<File> F(bool wrap) { return wrap ? std::unique_ptr<File>(std::make_unique<WrapFile>(hub, fc)) : fc.New(); }
  std::unique_ptr<DBM> New(bool wrap) {
    switch (kind) {
      case TINY: return std::make_unique<TinyDBM>(F(wrap), 100);
      case BABY: return std::make_unique<BabyDBM>(F(wrap));
      case CACHE: return std::make_unique<CacheDBM>(F(wrap), 100000, -1);
      case STDHASH: return std::make_unique<StdHashDBM>(F(wrap), 100);
      case STDTREE: return std::make_unique<StdTreeDBM>(F(wrap));
      case SKIP: return std::make_unique<SkipDBM>(F(wrap));
      case HASH: return std::make_unique<HashDBM>(F(wrap));
      default: return std::make_unique<TreeDBM>(F(wrap));
    }
  }
  Status Open(DBM* d, const std::string& p, bool wr, int opt = 0) {
    if (auto* s = dynamic_cast<SkipDBM*>(d)) { auto t = sp; return s->OpenAdvanced(p, wr, opt, t); }
    if (auto* h = dynamic_cast<HashDBM*>(d)) return h->OpenAdvanced(p, wr, opt, hp);
    if (auto* t = dynamic_cast<TreeDBM*>(d)) return t->OpenAdvanced(p, wr, opt, tp);
    return d->Open(p, wr, opt);
  }
  void SetMeta(DBM* d) {
    if (auto* s = dynamic_cast<SkipDBM*>(d)) { s->SetDatabaseType(77); s->SetOpaqueMetadata("opaque"); }
    if (auto* h = dynamic_cast<HashDBM*>(d)) { h->SetDatabaseType(77); h->SetOpaqueMetadata("opaque"); }
    if (auto* t = dynamic_cast<TreeDBM*>(d)) { t->SetDatabaseType(77); t->SetOpaqueMetadata("opaque"); }
  }
  void CheckMeta(DBM* d, const std::string& at) {
    uint32_t ty = 77; std::string o = "opaque";
    if (auto* s = dynamic_cast<SkipDBM*>(d)) { ty = s->GetDatabaseType(); o = s->GetOpaqueMetadata(); }
    if (auto* h = dynamic_cast<HashDBM*>(d)) { ty = h->GetDatabaseType(); o = h->GetOpaqueMetadata(); }
    if (auto* t = dynamic_cast<TreeDBM*>(d)) { ty = t->GetDatabaseType(); o = t->GetOpaqueMetadata(); }
    VCHECK(c, ty == 77 && o.compare(0, 6, "opaque") == 0, "metadata", "database type %u, opaque %s: %s", ty, Show(std::string_view(o)).c_str(), at.c_str());
  }
  Recs Scan(DBM* d, const std::string& at) {
    Recs r;
    auto it = d->MakeIterator();
    std::string k, v;
    Status st = it->First();
    while (st == Status::SUCCESS && (st = it->Get(&k, &v)) == Status::SUCCESS) { r.push_back({k, v}); st = it->Next(); }
    VCHECK(c, st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR, "scan", "scan: %s (%s)", SS(st).c_str(), at.c_str());
    if (!sorted()) std::sort(r.begin(), r.end());
    const int64_t cnt = d->CountSimple();
    VCHECK(c, cnt == (int64_t)r.size(), "count", "Count %lld, %zu records (%s)", (long long)cnt, r.size(), at.c_str());
    return r;
  }
  static std::string SS(const Status& s) { return ToString(s); }
  // What the file at p holds for a process which opens it.
  Recs Load(const std::string& p, bool wr, const std::string& at, bool meta_too, bool use) {
    auto d = New(false);
    Status st = Open(d.get(), p, wr, wr ? 0 : 0);
    VCHECK(c, st == Status::SUCCESS, "reopen", "opening: %s (%s)", SS(st).c_str(), at.c_str());
    Recs r = Scan(d.get(), at);
    if (meta_too) CheckMeta(d.get(), at);
    if (use && wr) {
      // leftover files do not matter: save again and reopen
      VCHECK(c, d->Set("zzz-new", "1") == Status::SUCCESS, "use", "Set fails (%s)", at.c_str());
      Recs w = r;
      if (meta()) { st = d->Synchronize(false); VCHECK(c, st == Status::SUCCESS, "use", "Synchronize: %s (%s)", SS(st).c_str(), at.c_str()); }
      if (g.P(40)) { st = d->Rebuild(); VCHECK(c, st == Status::SUCCESS, "use", "Rebuild: %s (%s)", SS(st).c_str(), at.c_str()); }
      st = d->Close();
      VCHECK(c, st == Status::SUCCESS, "use", "Close: %s (%s)", SS(st).c_str(), at.c_str());
      w.push_back({"zzz-new", "1"});
      std::stable_sort(w.begin(), w.end(), [](auto& a, auto& b) { return a.first < b.first; });
      if (!sorted()) std::sort(w.begin(), w.end());
      auto e = New(false);
      st = Open(e.get(), p, false);
      VCHECK(c, st == Status::SUCCESS, "use", "opening again: %s (%s)", SS(st).c_str(), at.c_str());
      VCHECK(c, Scan(e.get(), at) == w, "use", "contents differ after using and closing (%s)", at.c_str());
      e->Close();
      return r;
    }
    st = d->Close();
    VCHECK(c, st == Status::SUCCESS, "use", "Close: %s (%s)", SS(st).c_str(), at.c_str());
    return r;
  }
};

static std::string Diff(const Recs& got, const Recs& a, const Recs& b) { return Fmt("%zu records, neither the previous %zu nor the new %zu", got.size(), a.size(), b.size()); }

static void FileCase(Ctx& c, Rng& g, World& w) {
  auto hub = w.hub;
  const bool fresh = g.P(15);
  std::string a = g.P(15) ? "" : g.Bytes(g.U(g.Pick({10, 5000, 100000}))), b = g.P(15) ? "" : g.Bytes(g.U(g.Pick({10, 5000, 100000})));
  mkdir(w.dir.c_str(), 0755);
  if (!fresh) WriteAll(w.path, a);
  const std::string tmp = g.P(50) ? "" : w.path + ".mytmp";
  if (g.P(40)) WriteAll(tmp.empty() ? w.path + ".tmp" : tmp, g.Bytes(g.U(200000)));
  auto state = [&](const Image& im, const std::string& at) {
    auto it = im.files.find("casket.db");
    if (it == im.files.end()) { VCHECK(c, fresh, "mixture", "the file is missing (%s)", at.c_str()); return; }
    std::string d = it->second.second; d.resize(it->second.first, 0);
    VCHECK(c, (!fresh && d == a) || d == b, "mixture", "the file has %zu bytes, old %zu, new %zu (%s)", d.size(), a.size(), b.size(), at.c_str());
  };
  hub->on = true;
  const bool fault = g.P(40);
  if (fault) { hub->fail_at = g.U(5); hub->sticky = g.P(30); }
  else hub->at = [&](const std::string& at) { c.Stat("crash_points"); c.Eval(Image::Take(w.dir).Hash()); state(Image::Take(w.dir), "killed at " + at); };
  hub->Sys(true);
  Status st(Status::SUCCESS);
  try { st = WriteFileAtomic(w.path, b, tmp); } catch (...) { hub->Sys(false); throw; }
  hub->Sys(false);
  hub->on = false;
  c.Reach(fault ? "failing " + hub->failed.substr(0, hub->failed.find('(')) + " in WriteFileAtomic" : "crashes in WriteFileAtomic");
  Image im = Image::Take(w.dir);
  state(im, fault ? hub->failed + " failing" : "done");
  std::string d;
  const bool got = ReadAll(w.path, &d);
  if (hub->failed.empty()) VCHECK(c, st == Status::SUCCESS, "status", "%s without a failure", World::SS(st).c_str());
  if (st == Status::SUCCESS) VCHECK(c, got && d == b, "swallowed", "success, but the file has not the new contents (%s failing)", hub->failed.c_str());
  else c.Stat("failed_saves");
  // and a later call works
  VCHECK(c, WriteFileAtomic(w.path, a + b, tmp) == Status::SUCCESS && ReadAll(w.path, &d) && d == a + b, "use", "a later WriteFileAtomic fails");
  c.Sig(HashStr(d)); c.nontrivial = true;
}

static void Case(Ctx& c, Rng& g, int64_t) {
  World w{c, g, (Kind)g.Pick({0, 1, 2, 3, 4, 5, 5, 5, 6, 7, 8})};
  w.fc = FileCfg::Make(g);
  if (w.fc.options & PositionalFile::ACCESS_PAGECACHE) w.fc.options &= ~PositionalFile::ACCESS_PAGECACHE;
  if (w.fc.options & PositionalFile::ACCESS_PADDING) { w.fc.block = 0; w.fc.options = 0; }
  RandHashParams(g, &w.hp);
  RandTreeParams(g, &w.tp, &w.order, false);
  for (HashDBM::TuningParameters* h : {&w.hp, (HashDBM::TuningParameters*)&w.tp}) {
    h->num_buckets = g.Pick<int64_t>({1, 7, 100}); if (h->offset_width < 4) h->offset_width = 4; h->restore_mode = 0;
    h->update_mode = HashDBM::UPDATE_DEFAULT; h->cache_buckets = -1;
    if (h->record_comp_mode == HashDBM::RECORD_COMP_LZMA) h->record_comp_mode = HashDBM::RECORD_COMP_NONE;
  }
  w.tp.max_page_size = (int)g.Pick({40, 100, 8130}); w.tp.key_comparator = nullptr;
  w.sp.offset_width = (int)g.Pick({3, 4}); w.sp.step_unit = (int)g.Pick({2, 4}); w.sp.max_level = (int)g.Pick({1, 4, 14});
  w.sp.sort_mem_size = g.Pick<int64_t>({300, 10000000}); w.sp.insert_in_order = w.kind == SKIP && g.P(30);
  w.dir = c.Path("db"); w.path = w.dir + "/casket.db"; w.cdir = c.Path("img"); w.cpath = w.cdir + "/casket.db";
  const int mode = w.kind >= HASH && w.kind != WRITEFILE ? 2 : (int)g.U(w.kind == SKIP ? 3 : 2);  // 0 Synchronize 1 Close 2 Rebuild
  const bool fault = g.P(50);
  Describe(c, Fmt("%s %s %s inorder=%d ", kNames[w.kind], mode == 0 ? "Synchronize" : mode == 1 ? "Close" : "Rebuild", fault ? "fault" : "crash", w.sp.insert_in_order) + w.fc.Str() +
              (w.kind == HASH ? " " + HashParamsStr(w.hp) : w.kind == TREE ? " " + TreeParamsStr(w.tp, w.order) : ""));
  c.Sig(c.desc);
  if (w.kind == WRITEFILE) { FileCase(c, g, w); return; }
  auto hub = w.hub;
  mkdir(w.dir.c_str(), 0755);
  // the previous contents
  Recs A, B;
  std::map<std::string, std::string> m;
  const int n = (int)g.Pick({0, 1, 5, 40, 300});
  const bool first = n == 0 && g.P(50);
  {
    auto d = w.New(false);
    Status st = w.Open(d.get(), w.path, true);
    VCHECK(c, st == Status::SUCCESS, "open", "%s", World::SS(st).c_str());
    w.SetMeta(d.get());
    for (int i = 0; i < n; i++) { m[Fmt("k%05d", i * 2)] = std::string(g.U(g.Pick({3, 30, 600})), (char)('a' + i % 26)); }
    for (auto& kv : m) d->Set(kv.first, kv.second);
    VCHECK(c, d->Close() == Status::SUCCESS, "open", "first Close");
    if (w.kind == SKIP && n == 0) {}
  }
  (void)first;
  for (auto& kv : m) A.push_back(kv);
  // leftover temporary files of an earlier process
  static const char* sfx[] = {".tmp.export", ".tmp.rebuild", ".tmp.restore", ".tmp.sorted", ".tmp.merged", ".tmp.sorter", ".tmp.offset", ".tmp.dead", ".tmp.rebuild.tmp.offset", ".tmp.rebuild.tmp.dead", ".tmp.sorter.00000", ".tmp.sorter.00001"};
  std::string old;
  ReadAll(w.path, &old);
  if (g.P(50)) for (auto* s : sfx) if (g.P(40)) WriteAll(w.path + s, g.P(50) ? g.Bytes(g.U(3000)) : g.P(50) ? old : old.substr(0, g.U(old.size() + 1)));
  struct Pt { Image im; std::string at; bool done; };
  std::vector<Pt> pts;
  auto d = w.New(true);
  Status st = w.Open(d.get(), w.path, true);
  VCHECK(c, st == Status::SUCCESS, "open", "second open: %s", World::SS(st).c_str());
  std::vector<Recs> allowed{A};
  const int rounds = (int)g.R(1, 3);
  bool broken = false;
  for (int round = 0; round < rounds && !broken; round++) {
    const bool last = round == rounds - 1;
    const int md = mode == 1 && !last ? 0 : mode;
    // updates (for Rebuild of a file database they are synchronized first, so that the contents stay the same)
    const int u = (int)g.Pick({0, 1, 6, 60, 400});
    for (int i = 0; i < u; i++) {
      const std::string k = Fmt("k%05d", w.sp.insert_in_order ? 1000 * (round + 1) + i : (int)g.U(700));
      if (!w.sp.insert_in_order && g.P(25)) { if (d->Remove(k) == Status::SUCCESS || w.kind == SKIP) m.erase(k); }
      else { const std::string v(g.U(g.Pick({3, 30, 600})), (char)('A' + g.U(26)));
        if (w.kind == SKIP && m.count(k)) { d->Remove(k); }
        st = d->Set(k, v); VCHECK(c, st == Status::SUCCESS, "update", "Set: %s", World::SS(st).c_str()); m[k] = v; }
    }
    B.clear();
    for (auto& kv : m) B.push_back(kv);
    const Recs prev = allowed.back();
    if (md == 2) {
      st = d->Synchronize(false);
      VCHECK(c, st == Status::SUCCESS, "update", "Synchronize before Rebuild: %s", World::SS(st).c_str());
      allowed = {B};
    } else allowed = {prev, B};
    hub->n = 0; hub->failed.clear(); hub->at = nullptr; hub->fail_at = -1;
    const bool flt = fault && g.P(75);
    if (flt) { hub->fail_at = g.Pick<int64_t>({(int64_t)g.U(8), (int64_t)g.U(40), (int64_t)g.U(400)}); hub->sticky = g.P(30); hub->reads = g.P(30); }
    else if (!fault || g.P(20)) {
      const int pct = (int)g.Pick({5, 30, 100});
      hub->at = [&, pct](const std::string& at) { if (pts.size() < 60 && (g.P(pct) || at.find("ename") != std::string::npos)) { Image im = Image::Take(w.dir); pts.push_back({im, at, false}); } };
    }
    hub->on = true; hub->Sys(true);
    st = md == 0 ? d->Synchronize(g.P(20)) : md == 1 ? d->Close() : w.kind == HASH && g.P(50) ? static_cast<HashDBM*>(d.get())->RebuildAdvanced(HashDBM::TuningParameters(), false, g.P(20)) : d->Rebuild();
    hub->Sys(false); hub->on = false;
    const std::string op = md == 0 ? "Synchronize" : md == 1 ? "Close" : "Rebuild";
    c.T(Fmt("%s: %s failing %s after %lld", op.c_str(), World::SS(st).c_str(), hub->failed.c_str(), (long long)hub->fail_at));
    c.Reach(op + " " + kNames[w.kind] + (hub->failed.empty() ? hub->at ? " crashes" : "" : " failing " + hub->failed.substr(0, hub->failed.find('('))));
    if (hub->failed.empty()) {
      VCHECK(c, st == Status::SUCCESS, "status", "%s: %s without any failure", op.c_str(), World::SS(st).c_str());
      pts.push_back({Image::Take(w.dir), op + " done", true});
    } else {
      c.Stat("failed_saves");
      pts.push_back({Image::Take(w.dir), op + " with failing " + hub->failed, st == Status::SUCCESS});
      if (md != 1) {
        st = d->Close();
        c.T("Close: " + World::SS(st));
        pts.push_back({Image::Take(w.dir), "Close after " + op + " with failing " + hub->failed, st == Status::SUCCESS && md == 2});
      }
      broken = true;
    }
    if (md == 1) broken = true;
    // judge the images
    for (auto& p : pts) {
      p.im.Put(w.cdir);
      const std::string at = p.done || p.at.find("failing") != std::string::npos ? p.at : op + " killed at " + p.at;
      c.Stat(at.find("killed") != std::string::npos ? "crash_points" : "end_points");
      c.Eval(p.im.Hash() ^ HashStr(at));
      const bool wr = g.P(60) || w.meta();
      VCHECK(c, p.im.files.count("casket.db"), "mixture", "the file is missing (%s)", at.c_str());
      const Recs got = w.Load(w.cpath, wr, at, true, g.P(60));
      if (p.done) VCHECK(c, got == B, "mixture", "%s: %zu records instead of the new %zu", at.c_str(), got.size(), B.size());
      bool ok = false;
      for (auto& x : allowed) ok |= got == x;
      VCHECK(c, ok, "mixture", "%s (%s)", Diff(got, allowed.front(), B).c_str(), at.c_str());
    }
    pts.clear();
    allowed = {B};
  }
  if (d->IsOpen()) d->Close();
  c.Sig(B.size()); c.nontrivial = true;
}
int main(int argc, char** argv) { return vh::Main(argc, argv, "C13", Case); }
