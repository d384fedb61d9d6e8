// C31: open modes, file locks and object lifecycle.
#include "anydb.h"
#include "tkrzw_index.h"
#include "tkrzw_message_queue.h"
#include <sched.h>
using namespace vh;
using namespace tkrzw;
typedef std::map<std::string, std::string> SMap;

static AnyDB MakeAny(Rng& g, const std::string& dir, std::vector<std::string> classes = {}, bool std_file = true) {
  AnyOpt o;
  if (!classes.empty()) o.classes = classes;
  o.tiny_trees = g.P(50);
  o.orders = false;
  o.std_file = std_file;
  o.padding = false;
  o.small = true;
  o.always_file = true;
  AnyDB a = AnyDB::Make(g, dir, o);
  for (auto* t : {&a.hp, (HashDBM::TuningParameters*)&a.tp}) {
    if (t->record_comp_mode == HashDBM::RECORD_COMP_LZMA) t->record_comp_mode = HashDBM::RECORD_COMP_NONE;
    t->offset_width = 4;
  }
  if (a.cls != a.inner) a.MakeParams();
  return a;
}
static SMap Dump(DBM* d, Status* st) {
  SMap m;
  struct P : DBM::RecordProcessor {
    SMap* m;
    std::string_view ProcessFull(std::string_view k, std::string_view v) override { (*m)[std::string(k)] = std::string(v); return NOOP; }
  } p;
  p.m = &m;
  *st = d->ProcessEach(&p, false);
  return m;
}
static std::map<std::string, std::string> DirBytes(const std::string& dir) {
  std::map<std::string, std::string> r;
  for (auto& n : ListDir(dir)) {
    struct stat st;
    if (stat((dir + "/" + n).c_str(), &st) == 0 && S_ISREG(st.st_mode)) { std::string b; ReadAll(dir + "/" + n, &b); r[n] = b; }
  }
  return r;
}
static std::string DirDiff(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b) {
  for (auto& x : a) { auto it = b.find(x.first); if (it == b.end()) return "file " + x.first + " disappeared"; if (it->second != x.second) return Fmt("file %s changed (%zu to %zu bytes)", x.first.c_str(), x.second.size(), it->second.size()); }
  for (auto& x : b) if (!a.count(x.first)) return "file " + x.first + " appeared";
  return "";
}
static void Fill(Ctx& c, Rng& g, DBM* d, SMap* m, int n, bool skip) {
  static int64_t serial = 0;
  for (int i = 0; i < n; i++) {
    const std::string k = skip ? Fmt("key%06lld", (long long)serial++) : Fmt("key%02d", (int)g.U(40));
    if (skip || g.P(75)) {
      const std::string v = g.Bytes(g.U(60));
      const Status st = d->Set(k, v);
      VCHECK(c, st == Status::SUCCESS, "life-set", "Set on an open database: %s", SS(st).c_str());
      (*m)[k] = v;
    } else {
      const Status st = d->Remove(k);
      VCHECK(c, st == (m->count(k) ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "life-remove", "Remove of a key which %s: %s", m->count(k) ? "exists" : "does not exist", SS(st).c_str());
      m->erase(k);
    }
  }
}
static void Same(Ctx& c, DBM* d, const SMap& m, const char* when) {
  Status st;
  const SMap x = Dump(d, &st);
  VCHECK(c, st == Status::SUCCESS && x == m, "life-content", "%s: ProcessEach gives %s and %zu records, %zu expected", when, SS(st).c_str(), x.size(), m.size());
  VCHECK(c, d->CountSimple() == (int64_t)m.size(), "life-count", "%s: the count is %lld, %zu expected", when, (long long)d->CountSimple(), m.size());
}

// ---------- misuse: every call returns PRECONDITION_ERROR ----------
// mode: 0 not open (reads and writes refused), 1 not writable (updates refused)
static void Misuse(Ctx& c, Rng& g, const AnyDB& a, DBM* d, int mode, const char* when) {
  const bool rd = mode == 0;
  auto want = [&](const char* what, const Status& st) {
    VCHECK(c, st == Status::PRECONDITION_ERROR, "misuse-status", "%s of %s on %s database: %s", what, a.cls.c_str(), when, SS(st).c_str());
    c.Stat("refused_calls");
  };
  std::string s, s2;
  int64_t n = -1;
  double t;
  bool b;
  const std::string k = g.P(50) ? std::string("key01") : Fmt("key%02d", (int)g.U(40));
  struct P : DBM::RecordProcessor {
    int calls = 0;
    std::string_view ProcessFull(std::string_view, std::string_view) override { calls++; return "z"; }
    std::string_view ProcessEmpty(std::string_view) override { calls++; return "z"; }
  } p;
  if (rd) {
    want("Get", d->Get(k, &s));
    want("Get without value", d->Get(k));
    want("Process(read)", d->Process(k, &p, false));
    want("ProcessFirst(read)", d->ProcessFirst(&p, false));
    want("ProcessEach(read)", d->ProcessEach(&p, false));
    want("ProcessMulti(read)", d->ProcessMulti({{std::string_view(k), &p}}, false));
    want("CompareExchange(read)", d->CompareExchange(k, "a", "a"));
    SMap recs;
    const Status gm = d->GetMulti(std::vector<std::string>{k, "x"}, &recs);
    VCHECK(c, gm != Status::SUCCESS && recs.empty(), "misuse-getmulti", "GetMulti of %s on %s database: %s with %zu records", a.cls.c_str(), when, SS(gm).c_str(), recs.size());
    want("Count", d->Count(&n));
    want("GetFileSize", d->GetFileSize(&n));
    want("GetFilePath", d->GetFilePath(&s));
    want("GetTimestamp", d->GetTimestamp(&t));
    want("ShouldBeRebuilt", d->ShouldBeRebuilt(&b));
    want("Close", d->Close());
    want("CopyFileData", d->CopyFileData(c.dir + "/copy-misuse", false));
    VCHECK(c, !Exists(c.dir + "/copy-misuse"), "misuse-effect", "CopyFileData on %s database left a file", when);
    auto other = std::make_unique<BabyDBM>();
    want("Export", d->Export(other.get()));
    VCHECK(c, d->CountSimple() == -1 && d->GetSimple(k, "dflt") == "dflt", "misuse-simple", "simple getters of %s on %s database: count %lld, value %s", a.cls.c_str(), when, (long long)d->CountSimple(), d->GetSimple(k, "dflt").c_str());
    VCHECK(c, !d->IsOpen() && !d->IsWritable() && !d->IsHealthy(), "misuse-flags", "%s database: IsOpen %d IsWritable %d IsHealthy %d", when, d->IsOpen(), d->IsWritable(), d->IsHealthy());
    d->Inspect();
    auto it = d->MakeIterator();
    if (it != nullptr) {
      if (a.cls != "ShardDBM") want("Iterator::First", it->First());
      Status st = it->Get(&s, &s2);
      VCHECK(c, st == Status::PRECONDITION_ERROR || st == Status::NOT_FOUND_ERROR, "misuse-status", "Iterator::Get of %s on %s database: %s", a.cls.c_str(), when, SS(st).c_str());
      st = it->Jump(k);
      VCHECK(c, st == Status::PRECONDITION_ERROR || a.cls == "ShardDBM", "misuse-status", "Iterator::Jump of %s on %s database: %s", a.cls.c_str(), when, SS(st).c_str());
      it->Get(&s, &s2); it->Next(); it->Previous(); it->Set("x"); it->Remove();
      if (a.ordered && a.cls != "ShardDBM") { want("Iterator::Last", it->Last()); want("Iterator::JumpLower", it->JumpLower(k, g.P(50))); want("Iterator::JumpUpper", it->JumpUpper(k, g.P(50))); }
    }
  }
  want("Set", d->Set(k, "z"));
  want("Set without overwriting", d->Set("new-key", "z", false));
  want("Append", d->Append(k, "z", ","));
  if (!a.skip || rd) want("Increment", d->Increment(k, 1, &n));
  want("Process(write)", d->Process(k, &p, true));
  want("ProcessMulti(write)", d->ProcessMulti({{std::string_view(k), &p}, {std::string_view("x"), &p}}, true));
  if (rd || a.cls != "ShardDBM") want("ProcessFirst(write)", d->ProcessFirst(&p, true));
  want("ProcessEach(write)", d->ProcessEach(&p, true));
  VCHECK(c, p.calls == 0 || a.cls == "ShardDBM", "misuse-effect", "a refused call on %s database invoked the processor %d times", when, p.calls);
  want("Remove", d->Remove(k));
  if (rd || a.cls != "ShardDBM") want("PopFirst", d->PopFirst(&s, &s2));
  want("PushLast", d->PushLast("z", 0));
  want("CompareExchange", d->CompareExchange(k, std::string_view(), "z"));
  want("CompareExchangeMulti", d->CompareExchangeMulti({{"x1", std::string_view()}}, {{"x1", "a"}, {"x2", "b"}}));
  want("Rekey", d->Rekey(k, "other"));
  want("SetMulti", d->SetMulti(SMap{{"x1", "a"}, {"x2", "b"}}));
  {
    const Status st = d->RemoveMulti(std::vector<std::string>{k, "x"});
    VCHECK(c, st == Status::PRECONDITION_ERROR, "misuse-status", "RemoveMulti of %s on %s database: %s", a.cls.c_str(), when, SS(st).c_str());
  }
  want("AppendMulti", d->AppendMulti(SMap{{"x1", "a"}}, ","));
  if (std::string(when) != "an unhealthy") want("Clear", d->Clear());  // makes it healthy
  if (std::string(when) != "an unhealthy") want("Rebuild", d->Rebuild());
  if (rd) want("Synchronize", d->Synchronize(g.P(30)));
  else {
    const Status st = d->Synchronize(g.P(30));
    VCHECK(c, st == Status::PRECONDITION_ERROR || st == Status::SUCCESS, "misuse-status", "Synchronize of %s on %s database: %s", a.cls.c_str(), when, SS(st).c_str());
    auto it = d->MakeIterator();
    if (it->First() == Status::SUCCESS && it->Get(&s, &s2) == Status::SUCCESS) {
      const std::string k0 = s, v0 = s2;
      want("Iterator::Set", it->Set("changed"));
      want("Iterator::Remove", it->Remove());
      VCHECK(c, d->Get(k0, &s) == Status::SUCCESS && s == v0, "misuse-effect", "a refused iterator update on %s database changed the record %s", when, Show(k0).c_str());
    }
  }
  if (a.cls == "HashDBM") {
    auto* h = static_cast<HashDBM*>(d);
    if (rd) { VCHECK(c, h->CountUsedBuckets() == -1 && h->CountBuckets() == -1 && h->GetDatabaseType() == -1 && h->GetEffectiveDataSize() == -1 && h->GetOpaqueMetadata().empty(), "misuse-getter", "getters of HashDBM on %s database", when); want("ValidateHashBuckets", h->ValidateHashBuckets()); want("ValidateRecords", h->ValidateRecords(-1, -1)); }
    if (std::string(when) != "an unhealthy") want("SetDatabaseType", h->SetDatabaseType(5));
    if (std::string(when) != "an unhealthy") want("SetOpaqueMetadata", h->SetOpaqueMetadata("x"));
    want("ImportFromFileForward", h->ImportFromFileForward(c.dir + "/nothing", true, 0, -1));
  } else if (a.cls == "TreeDBM") {
    auto* h = static_cast<TreeDBM*>(d);
    if (rd) { VCHECK(c, h->GetDatabaseType() == 0 || h->GetDatabaseType() == -1, "misuse-getter", "GetDatabaseType of TreeDBM on %s database", when); }
    if (std::string(when) != "an unhealthy") want("SetDatabaseType", h->SetDatabaseType(5));
    if (std::string(when) != "an unhealthy") want("SetOpaqueMetadata", h->SetOpaqueMetadata("x"));
  } else if (a.cls == "SkipDBM") {
    auto* h = static_cast<SkipDBM*>(d);
    if (std::string(when) != "an unhealthy") want("SetDatabaseType", h->SetDatabaseType(5));
    if (std::string(when) != "an unhealthy") want("SetOpaqueMetadata", h->SetOpaqueMetadata("x"));
    want("MergeSkipDatabase", static_cast<SkipDBM*>(d)->MergeSkipDatabase(c.dir + "/nothing"));
    want("Revert", static_cast<SkipDBM*>(d)->Revert());
    if (rd) { want("GetByIndex", h->GetByIndex(0, &s, &s2)); }
  }
}

static Status OpenFails(Ctx& c, Rng& g, const AnyDB& a, DBM* d, std::string* what) {
  AnyDB b = a;
  const std::string ext = a.path.substr(a.path.rfind('.'));
  switch (g.U(6)) {
    case 0: b.path = c.dir + "/nodir/x" + ext; *what = "a missing directory"; return b.Open(d, g.P(70), 0);
    case 1: b.path = c.dir + "/subdir" + ext; mkdir(b.path.c_str(), 0755); if (a.cls == "ShardDBM") mkdir((b.path + "-00000-of-00001").c_str(), 0755), b.params["num_shards"] = "1"; *what = "a directory"; return b.Open(d, g.P(70), 0);
    case 2: b.path = c.dir + "/missing" + ext; *what = "a missing file with OPEN_NO_CREATE"; return b.Open(d, true, File::OPEN_NO_CREATE | (g.P(30) ? File::OPEN_TRUNCATE : 0));
    case 3: b.path = c.dir + "/missing" + ext; *what = "a missing file for reading"; return b.Open(d, false, g.P(50) ? File::OPEN_TRUNCATE : 0);
    case 4: {
      b.path = c.dir + "/garbage" + ext;
      std::string x(g.R(200, 9000), 'G');
      WriteAll(b.path, x);
      if (a.cls == "ShardDBM") { WriteAll(b.path + "-00000-of-00001", x); b.params["num_shards"] = "1"; }
      *what = "a file of garbage";
      return b.Open(d, g.P(70), 0);
    }
    default:
      if (a.cls == "PolyDBM" || a.cls == "ShardDBM") {
        b.path = c.dir + "/odd" + ext;
        switch (g.U(3)) {
          case 0: b.params["dbm"] = "nothing"; break;
          case 1: b.params["file"] = "nothing"; break;
          default: b.params["ulog_prefix"] = c.dir + "/nodir/ulog"; break;
        }
        *what = "bad parameters";
        return b.Open(d, true, 0);
      }
      b.path = "";
      *what = "an empty path";
      return b.Open(d, g.P(50), 0);
  }
}

static void Lifecycle(Ctx& c, Rng& g) {
  AnyDB a = MakeAny(g, c.dir, {"HashDBM", "HashDBM", "TreeDBM", "TreeDBM", "SkipDBM", "TinyDBM", "BabyDBM", "CacheDBM", "StdHashDBM", "StdTreeDBM", "PolyDBM", "PolyDBM", "ShardDBM", "ShardDBM"});
  c.desc = "lifecycle " + a.desc;
  const bool onmem = !a.file_db;
  const bool adapter = a.cls != a.inner;
  std::unique_ptr<DBM> d = a.New();
  SMap m;
  Status st;
  bool exists = false;
  const int rounds = (int)g.R(3, 9);
  for (int r = 0; r < rounds; r++) {
    if ((!onmem || adapter) && g.P(30)) { c.T(Fmt("misuse before round %d", r)); Misuse(c, g, a, d.get(), 0, r == 0 ? "an unopened" : "a closed"); c.Reach("misuse:closed:" + a.cls); }
    if (g.P(30)) {
      std::string what;
      const auto before = DirBytes(c.dir);
      st = OpenFails(c, g, a, d.get(), &what);
      c.T("failed open of " + what + ": " + SS(st));
      if (st == Status::SUCCESS) VCHECK(c, false, "open-accepts", "opening %s as %s succeeded", what.c_str(), a.cls.c_str());
      if (what.find("missing file") == 0) VCHECK(c, st == Status::NOT_FOUND_ERROR || (a.cls == "ShardDBM"), "open-missing", "opening %s as %s: %s", what.c_str(), a.cls.c_str(), SS(st).c_str());
      auto after = DirBytes(c.dir);
      for (auto it = after.begin(); it != after.end();) if (it->first.compare(0, 6, "casket") != 0 && it->first.compare(0, 7, "missing") != 0) it = after.erase(it); else ++it;
      auto bef = before;
      for (auto it = bef.begin(); it != bef.end();) if (it->first.compare(0, 6, "casket") != 0 && it->first.compare(0, 7, "missing") != 0) it = bef.erase(it); else ++it;
      const std::string diff = DirDiff(bef, after);
      VCHECK(c, diff.empty(), "open-effect", "a failed open of %s as %s: %s", what.c_str(), a.cls.c_str(), diff.c_str());
      VCHECK(c, !d->IsOpen(), "open-failed-flag", "IsOpen after a failed open of %s as %s", what.c_str(), a.cls.c_str());
      if ((!onmem || adapter) && g.P(50)) Misuse(c, g, a, d.get(), 0, "an unsuccessfully opened");
      c.Reach("failopen:" + what);
      if (g.P(20)) { d.reset(); d = a.New(); }
    }
    // open
    int32_t opt = 0;
    if (g.P(20) && exists) opt |= File::OPEN_NO_CREATE;
    if (g.P(15)) opt |= File::OPEN_NO_WAIT;
    if (g.P(15)) opt |= File::OPEN_NO_LOCK;
    if (g.P(8)) opt |= File::OPEN_SYNC_HARD;
    const bool writable = !exists || g.P(60);
    if (writable && g.P(15)) opt |= File::OPEN_TRUNCATE;
    else if (!writable && g.P(15)) opt |= File::OPEN_TRUNCATE;  // ignored for readers
    const auto before = DirBytes(c.dir);
    st = a.Open(d.get(), writable, opt);
    c.T(Fmt("open writable=%d options=%d %s", writable, opt, SS(st).c_str()));
    VCHECK(c, st == Status::SUCCESS, "open", "opening (writable=%d options=%d exists=%d) of %s: %s", writable, opt, exists, a.desc.c_str(), SS(st).c_str());
    exists = true;
    if (writable && (opt & File::OPEN_TRUNCATE)) { m.clear(); c.Reach("truncate:" + a.cls); }
    VCHECK(c, d->IsOpen() && d->IsWritable() == writable && d->IsHealthy(), "open-flags", "after opening with writable=%d: IsOpen %d IsWritable %d IsHealthy %d", writable, d->IsOpen(), d->IsWritable(), d->IsHealthy());
    Same(c, d.get(), m, "after opening");
    if (!a.skip) {
      st = a.Open(d.get(), g.P(50), g.P(30) ? File::OPEN_TRUNCATE : 0);
      VCHECK(c, st == Status::PRECONDITION_ERROR, "open-twice", "opening an open %s again: %s", a.cls.c_str(), SS(st).c_str());
      Same(c, d.get(), m, "after opening twice");
    }
    if (writable) {
      Fill(c, g, d.get(), &m, (int)g.U(40), a.skip);
      if (a.skip) { st = d->Synchronize(false); VCHECK(c, st == Status::SUCCESS, "life-sync", "Synchronize: %s", SS(st).c_str()); }
      if (g.P(15)) { st = d->Rebuild(); VCHECK(c, st == Status::SUCCESS, "life-rebuild", "Rebuild: %s", SS(st).c_str()); }
      if (g.P(15)) { st = d->Synchronize(g.P(20)); VCHECK(c, st == Status::SUCCESS, "life-sync", "Synchronize: %s", SS(st).c_str()); }
      Same(c, d.get(), m, "after updating");
    } else {
      if (!onmem) { Misuse(c, g, a, d.get(), 1, "a read-only"); c.Reach("misuse:readonly:" + a.cls); }
      else if (g.P(50)) d->Set("volatile", "x"), c.Reach("readonly-onmem");
      if (!onmem) Same(c, d.get(), m, "after refused updates");
      std::string s, t;
      auto it = d->MakeIterator();
      it->First();
      while (it->Get(&s, &t) == Status::SUCCESS) it->Next();
    }
    std::unique_ptr<DBM::Iterator> left;
    if (g.P(20)) left = d->MakeIterator(), left->First();
    if (g.P(30)) { left.reset(); c.T("destruct without Close"); d.reset(); d = a.New(); c.Reach("destruct:" + a.cls); }
    else {
      st = a.Close(d.get());
      VCHECK(c, st == Status::SUCCESS, "life-close", "Close: %s", SS(st).c_str());
      if (left) {
        std::string s, t;
        st = left->Get(&s, &t);
        VCHECK(c, st != Status::SUCCESS, "iter-after-close", "an iterator of a closed %s gives a record", a.cls.c_str());
        left->Next(); left->First(); left->Jump("key01"); left->Set("x"); left->Remove();
      }
      if (g.P(15)) { left.reset(); d.reset(); d = a.New(); }
    }
    left.reset();
    if (!writable) {
      const std::string diff = DirDiff(before, DirBytes(c.dir));
      VCHECK(c, diff.empty(), "readonly-bytes", "a read-only session of %s: %s", a.cls.c_str(), diff.c_str());
      c.Stat("readonly_sessions");
    }
    c.Stat("sessions");
  }
  // unclean copies
  if ((a.cls == "HashDBM" || a.cls == "TreeDBM") && a.fc.kind != 4 && g.P(60)) {
    st = a.Open(d.get(), true, 0);
    VCHECK(c, st == Status::SUCCESS, "open", "opening: %s", SS(st).c_str());
    Fill(c, g, d.get(), &m, (int)g.R(1, 10), a.skip);
    d->Set("last", "x");
    std::string b;
    ReadAll(a.path, &b);
    a.Close(d.get());
    AnyDB u = a;
    u.path = c.dir + "/unclean.tk" + (a.cls == "HashDBM" ? "h" : "t");
    WriteAll(u.path, b);
    u.hp.restore_mode = u.tp.restore_mode = HashDBM::RESTORE_READ_ONLY;
    std::unique_ptr<DBM> e = u.New();
    st = u.Open(e.get(), true, 0);
    if (st == Status::SUCCESS && !e->IsHealthy()) {
      c.Reach("unhealthy:" + a.cls);
      Status s2;
      const SMap m1 = Dump(e.get(), &s2);
      if (s2 == Status::SUCCESS) {
        Misuse(c, g, u, e.get(), 1, "an unhealthy");
        const SMap m2 = Dump(e.get(), &s2);
        VCHECK(c, m1 == m2, "unhealthy-effect", "refused updates on an unhealthy %s changed the records from %zu to %zu", a.cls.c_str(), m1.size(), m2.size());
      }
      e->Close();
      // it must still be seen as unhealthy
      st = u.Open(e.get(), true, 0);
      VCHECK(c, st == Status::SUCCESS && !e->IsHealthy(), "unhealthy-forgotten", "a closed unhealthy %s: reopening gives %s, healthy %d", a.cls.c_str(), SS(st).c_str(), e->IsHealthy());
    }
  }
  c.nontrivial = true;
}

// ---------- files, queues, indices ----------
static void Files(Ctx& c, Rng& g) {
  FileCfg fc = FileCfg::Make(g, true);
  if (fc.options & PositionalFile::ACCESS_PADDING) fc.block = 0, fc.options = 0;
  c.desc = "file " + fc.Str();
  std::unique_ptr<File> f = fc.New();
  const std::string path = c.dir + "/file";
  std::string content;
  bool exists = false;
  char buf[64];
  auto misuse = [&](const char* when) {
    int64_t n;
    std::string s;
    auto want = [&](const char* what, const Status& st) { VCHECK(c, st == Status::PRECONDITION_ERROR, "file-misuse", "%s of %s file %s: %s", what, fc.Str().c_str(), when, SS(st).c_str()); c.Stat("refused_calls"); };
    want("Close", f->Close()); want("Read", f->Read(0, buf, 3)); want("Write", f->Write(0, "abc", 3)); want("Append", f->Append("abc", 3, &n)); want("Expand", f->Expand(10, &n));
    want("Truncate", f->Truncate(0)); want("TruncateFakely", f->TruncateFakely(0)); want("Synchronize", f->Synchronize(false)); want("GetSize", f->GetSize(&n)); want("GetPath", f->GetPath(&s));
    want("Rename", f->Rename(path + "-other")); want("DisablePathOperations", f->DisablePathOperations());
    VCHECK(c, !f->IsOpen() && f->GetSizeSimple() == -1, "file-misuse", "IsOpen %d GetSizeSimple %lld %s", f->IsOpen(), (long long)f->GetSizeSimple(), when);
    VCHECK(c, Exists(path) == exists, "file-misuse-effect", "refused calls %s made or removed the file", when);
  };
  for (int r = 0; r < (int)g.R(3, 8); r++) {
    if (g.P(40)) misuse(r ? "after Close" : "before Open");
    if (g.P(30)) {
      Status st = f->Open(c.dir + "/missing", g.P(50), File::OPEN_NO_CREATE);
      VCHECK(c, st == Status::NOT_FOUND_ERROR && !Exists(c.dir + "/missing"), "file-nocreate", "OPEN_NO_CREATE on a missing path by %s: %s", fc.Str().c_str(), SS(st).c_str());
      st = f->Open(c.dir + "/missing", false, g.P(50) ? File::OPEN_TRUNCATE : 0);
      VCHECK(c, st == Status::NOT_FOUND_ERROR && !Exists(c.dir + "/missing"), "file-missing", "reading a missing path by %s: %s", fc.Str().c_str(), SS(st).c_str());
      st = f->Open(c.dir, g.P(50), 0);
      VCHECK(c, st != Status::SUCCESS && !f->IsOpen(), "file-dir", "opening a directory by %s: %s", fc.Str().c_str(), SS(st).c_str());
      st = f->Open(c.dir + "/nodir/x", g.P(50), 0);
      VCHECK(c, st != Status::SUCCESS && !f->IsOpen(), "file-nodir", "opening in a missing directory by %s: %s", fc.Str().c_str(), SS(st).c_str());
    }
    const bool writable = !exists || g.P(60);
    int32_t opt = 0;
    if (g.P(25)) opt |= File::OPEN_TRUNCATE;
    if (exists && g.P(30)) opt |= File::OPEN_NO_CREATE;
    if (g.P(20)) opt |= File::OPEN_NO_WAIT;
    if (g.P(20)) opt |= File::OPEN_NO_LOCK;
    if (g.P(10)) opt |= File::OPEN_SYNC_HARD;
    Status st = f->Open(path, writable, opt);
    c.T(Fmt("open writable=%d options=%d %s", writable, opt, SS(st).c_str()));
    VCHECK(c, st == Status::SUCCESS, "file-open", "opening writable=%d options=%d by %s: %s", writable, opt, fc.Str().c_str(), SS(st).c_str());
    exists = true;
    if (writable && (opt & File::OPEN_TRUNCATE)) content.clear();
    st = f->Open(path, writable, 0);
    VCHECK(c, st == Status::PRECONDITION_ERROR, "file-twice", "opening an open file again: %s", SS(st).c_str());
    auto same = [&](const char* when) {
      std::string got(content.size(), 0);
      const int64_t n = f->GetSizeSimple();
      st = got.empty() ? Status(Status::SUCCESS) : f->Read(0, &got[0], got.size());
      VCHECK(c, n == (int64_t)content.size() && st == Status::SUCCESS && got == content, "file-content", "%s: size %lld, %zu expected, %s", when, (long long)n, content.size(), SS(st).c_str());
    };
    same("after opening");
    if (writable) {
      for (int i = 0; i < (int)g.U(6); i++) { std::string x = g.Bytes(g.R(1, 3000)); int64_t off = -1; st = f->Append(x.data(), x.size(), &off); VCHECK(c, st == Status::SUCCESS && off == (int64_t)content.size(), "file-append", "Append: %s at %lld", SS(st).c_str(), (long long)off); content += x; }
      if (g.P(30) && !content.empty()) { const int64_t n = g.U(content.size()); st = f->Truncate(n); VCHECK(c, st == Status::SUCCESS, "file-truncate", "Truncate: %s", SS(st).c_str()); content.resize(n); }
      same("after writing");
    } else {
      int64_t n;
      for (auto& x : std::vector<std::pair<const char*, Status>>{{"Write", f->Write(0, "abc", 3)}, {"Append", f->Append("abc", 3, &n)}, {"Expand", f->Expand(10, &n)}, {"Truncate", f->Truncate(0)}}) {
        VCHECK(c, x.second == Status::PRECONDITION_ERROR, "file-readonly", "%s on a read-only %s: %s", x.first, fc.Str().c_str(), SS(x.second).c_str());
        c.Stat("refused_calls");
      }
      same("after refused writes");
    }
    if (g.P(30)) { f.reset(); f = fc.New(); c.Reach("file-destruct"); }
    else { st = f->Close(); VCHECK(c, st == Status::SUCCESS, "file-close", "Close: %s", SS(st).c_str()); }
    std::string b;
    ReadAll(path, &b);
    VCHECK(c, b == content, "file-bytes", "after %s session of %s the file has %zu bytes, %zu expected", writable ? "a writable" : "a read-only", fc.Str().c_str(), b.size(), content.size());
    c.Stat("file_sessions");
  }
  c.nontrivial = true;
}
static void Others(Ctx& c, Rng& g) {
  if (g.P(50)) {
    c.desc = "message queue";
    const std::string prefix = c.dir + "/mq";
    auto mq = std::make_unique<MessageQueue>();
    std::vector<std::string> msgs;
    int64_t ts = 100;
    auto misuse = [&]() {
      auto want = [&](const char* what, const Status& st) { VCHECK(c, st == Status::PRECONDITION_ERROR, "mq-misuse", "%s of a queue which is not open: %s", what, SS(st).c_str()); c.Stat("refused_calls"); };
      want("Close", mq->Close()); want("Write", mq->Write(1, "x")); want("Synchronize", mq->Synchronize(false)); want("UpdateTimestamp", mq->UpdateTimestamp(1)); want("CancelReaders", mq->CancelReaders());
      VCHECK(c, mq->GetTimestamp() == -1, "mq-misuse", "GetTimestamp of a queue which is not open: %lld", (long long)mq->GetTimestamp());
    };
    for (int r = 0; r < (int)g.R(2, 6); r++) {
      if (g.P(40)) misuse();
      const bool ro = r > 0 && g.P(40);
      int32_t opt = ro ? MessageQueue::OPEN_READ_ONLY : 0;
      if (!ro && g.P(20)) { opt |= MessageQueue::OPEN_TRUNCATE; msgs.clear(); }
      if (ro && g.P(20)) opt |= MessageQueue::OPEN_TRUNCATE;
      const auto before = DirBytes(c.dir);
      Status st = mq->Open(prefix, 300, opt);
      c.T(Fmt("open options=%d %s", opt, SS(st).c_str()));
      if (ro && (opt & MessageQueue::OPEN_TRUNCATE)) {
        // contradictory
        if (st == Status::SUCCESS) mq->Close();
        const std::string diff = DirDiff(before, DirBytes(c.dir));
        VCHECK(c, diff.empty(), "mq-readonly-bytes", "opening a queue with OPEN_READ_ONLY and OPEN_TRUNCATE: %s", diff.c_str());
        continue;
      }
      VCHECK(c, st == Status::SUCCESS, "mq-open", "opening a queue with options %d: %s", opt, SS(st).c_str());
      VCHECK(c, mq->Open(prefix, 300, 0) == Status::PRECONDITION_ERROR, "mq-twice", "opening an open queue again is accepted");
      if (ro) {
        for (auto& x : std::vector<std::pair<const char*, Status>>{{"Write", mq->Write(1, "x")}, {"Synchronize", mq->Synchronize(false)}, {"UpdateTimestamp", mq->UpdateTimestamp(ts + 5)}})
          VCHECK(c, x.second == Status::PRECONDITION_ERROR, "mq-readonly", "%s on a read-only queue: %s", x.first, SS(x.second).c_str());
      } else {
        for (int i = 0; i < (int)g.U(12); i++) { std::string x = g.Bytes(g.U(60)); st = mq->Write(ts++, x); VCHECK(c, st == Status::SUCCESS, "mq-write", "Write: %s", SS(st).c_str()); msgs.push_back(x); }
      }
      {
        auto rd = mq->MakeReader(0);
        std::vector<std::string> got;
        std::string x;
        int64_t t;
        while ((st = rd->Read(&t, &x, 0)) == Status::SUCCESS) got.push_back(x);
        VCHECK(c, got == msgs, "mq-content", "a reader of a %s queue got %zu messages, %zu expected (%s)", ro ? "read-only" : "writable", got.size(), msgs.size(), SS(st).c_str());
      }
      if (g.P(30)) { mq = std::make_unique<MessageQueue>(); c.Reach("mq-destruct"); }
      else { st = mq->Close(); VCHECK(c, st == Status::SUCCESS, "mq-close", "Close: %s", SS(st).c_str()); }
      if (ro) { const std::string diff = DirDiff(before, DirBytes(c.dir)); VCHECK(c, diff.empty(), "mq-readonly-bytes", "a read-only session of a queue: %s", diff.c_str()); }
      c.Stat("queue_sessions");
    }
  } else {
    const bool str = g.P(50);
    c.desc = str ? "PolyIndex" : "FileIndex";
    typedef std::set<std::pair<std::string, std::string>> Set;
    Set m;
    auto run = [&](auto* dummy) {
      using T = std::remove_pointer_t<decltype(dummy)>;
      auto x = std::make_unique<T>();
      const std::string path = c.dir + "/index.tkt";
      for (int r = 0; r < (int)g.R(2, 7); r++) {
        if (g.P(40)) {
          auto want = [&](const char* what, const Status& st) { VCHECK(c, st == Status::PRECONDITION_ERROR, "index-misuse", "%s of an index which is not open: %s", what, SS(st).c_str()); c.Stat("refused_calls"); };
          want("Close", x->Close()); want("Add", x->Add("a", "b")); want("Remove", x->Remove("a", "b")); want("Clear", x->Clear()); want("Rebuild", x->Rebuild()); want("Synchronize", x->Synchronize(false));
          VCHECK(c, !x->IsOpen() && !x->IsWritable() && !x->Check("a", "b") && x->GetValues("a").empty(), "index-misuse", "getters of an index which is not open");
        }
        const bool w = r == 0 || g.P(60);
        const bool trunc = w && g.P(15);
        const auto before = DirBytes(c.dir);
        Status st;
        if constexpr (std::is_same_v<T, FileIndex>) st = x->Open(path, w, trunc ? File::OPEN_TRUNCATE : 0);
        else st = x->Open(path, w, trunc ? File::OPEN_TRUNCATE : 0);
        VCHECK(c, st == Status::SUCCESS, "index-open", "opening an index: %s", SS(st).c_str());
        if (trunc) m.clear();
        if constexpr (std::is_same_v<T, FileIndex>) { VCHECK(c, x->Open(path, w, 0) == Status::PRECONDITION_ERROR, "index-twice", "opening an open index again is accepted"); }
        if (w) for (int i = 0; i < (int)g.U(30); i++) {
          const std::string k = Fmt("k%d", (int)g.U(5)), v = Fmt("v%d", (int)g.U(9));
          if (g.P(70)) { st = x->Add(k, v); VCHECK(c, st == Status::SUCCESS, "index-add", "Add: %s", SS(st).c_str()); m.insert({k, v}); }
          else { st = x->Remove(k, v); VCHECK(c, st == (m.count({k, v}) ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "index-remove", "Remove: %s", SS(st).c_str()); m.erase({k, v}); }
        } else {
          for (auto& y : std::vector<std::pair<const char*, Status>>{{"Add", x->Add("a", "b")}, {"Remove", x->Remove(m.empty() ? "a" : m.begin()->first, m.empty() ? "a" : m.begin()->second)}, {"Clear", x->Clear()}})
            VCHECK(c, y.second == Status::PRECONDITION_ERROR, "index-readonly", "%s on a read-only index: %s", y.first, SS(y.second).c_str());
        }
        Set got;
        auto it = x->MakeIterator();
        it->First();
        std::string k, v;
        while (it->Get(&k, &v)) { got.insert({k, v}); it->Next(); }
        it.reset();
        VCHECK(c, got == m, "index-content", "an index has %zu records, %zu expected", got.size(), m.size());
        if (g.P(30)) x = std::make_unique<T>();
        else { st = x->Close(); VCHECK(c, st == Status::SUCCESS, "index-close", "Close: %s", SS(st).c_str()); }
        if (!w) { const std::string diff = DirDiff(before, DirBytes(c.dir)); VCHECK(c, diff.empty(), "index-readonly-bytes", "a read-only session of an index: %s", diff.c_str()); }
        c.Stat("index_sessions");
      }
    };
    if (str) run((PolyIndex*)nullptr); else run((FileIndex*)nullptr);
  }
  c.nontrivial = true;
}

// ---------- several processes ----------
struct Shared {
  std::atomic<int> writers, readers, failed, stop;
  std::atomic<int64_t> acked, holds, refusals, overlaps_possible, waits;
  std::atomic<int> done[8];
  char key[8][64];
  char msg[8][400];
};
static Shared* SharedMem() {
  static Shared* s = nullptr;
  if (!s) s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)s, 0, sizeof(*s));
  return s;
}
struct ProcFail {};
#define PCHECK(cond, k, ...) do { if (!(cond)) { if (!sh->failed.exchange(1)) {} snprintf(sh->key[me], sizeof(sh->key[me]), "%s", k); snprintf(sh->msg[me], sizeof(sh->msg[me]), __VA_ARGS__); throw ProcFail(); } } while (0)

// One subject: a database or a raw file holding a counter.
struct Subject {
  AnyDB a;
  bool raw = false;
  FileCfg fc;
  std::string path;
  std::unique_ptr<DBM> db;
  std::unique_ptr<File> file;
  void Make() { if (raw) file = fc.New(); else db = a.New(); }
  void Drop() { file.reset(); db.reset(); }
  Status Open(bool w, int opt) { return raw ? file->Open(path, w, opt) : a.Open(db.get(), w, opt); }
  Status Close() { return raw ? file->Close() : a.Close(db.get()); }
  Status Value(int64_t* v) {
    *v = 0;
    if (raw) { if (file->GetSizeSimple() < 8) return Status(Status::SUCCESS); return file->Read(0, v, 8); }
    std::string s;
    if (a.skip) return db->Count(v);
    const Status st = db->Get("counter", &s);
    if (st == Status::NOT_FOUND_ERROR) return Status(Status::SUCCESS);
    *v = atoll(s.c_str());
    return st;
  }
  Status Put(int64_t v) {
    if (raw) return file->Write(0, &v, 8);
    if (a.skip) return db->Set(Fmt("c%06lld", (long long)v), "x");
    Status st = db->Set("counter", Fmt("%lld", (long long)v));
    if (st == Status::SUCCESS) st = db->Set(Fmt("pad%d", (int)(v % 7)), std::string(v % 50, 'x'));
    return st;
  }
};
static void Child(Subject& s, Shared* sh, int me, uint64_t seed, int rounds) {
  Rng g(seed);
  s.Make();
  try {
    for (int r = 0; r < rounds && !sh->failed; r++) {
      const bool w = g.P(65);
      int opt = 0;
      if (g.P(35)) opt |= File::OPEN_NO_WAIT;
      if (w && g.P(12)) opt |= File::OPEN_TRUNCATE;
      if (g.P(10)) opt |= File::OPEN_NO_CREATE;
      Status st = s.Open(w, opt);
      if (st != Status::SUCCESS) {
        PCHECK(opt & File::OPEN_NO_WAIT, "mp-open", "opening writable=%d options=%d while others use it: %s", w, opt, SS(st).c_str());
        sh->refusals++;
        if (g.P(50)) usleep(g.U(500));
        continue;
      }
      const int ow = w ? sh->writers++ : sh->writers.load();
      const int orr = w ? sh->readers.load() : sh->readers++;
      sh->holds++;
      if (!w) PCHECK(sh->writers == 0, "mp-overlap", "a reader has it open (options=%d) while a writer has it open", opt);
      PCHECK(ow == 0 && (!w || orr == 0), "mp-overlap", "%s has it open (options=%d) while %d writers and %d readers have it open", w ? "a writer" : "a reader", opt, ow, orr);
      if (w && (opt & File::OPEN_TRUNCATE)) sh->acked = 0;
      int64_t v;
      st = s.Value(&v);
      PCHECK(st == Status::SUCCESS && v == sh->acked, "mp-value", "%s reads %lld just after opening (options=%d), %lld was acknowledged (%s)", w ? "a writer" : "a reader", (long long)v, opt, (long long)sh->acked, SS(st).c_str());
      for (int i = 0; i < (int)g.U(6); i++) {
        if (w) {
          st = s.Value(&v);
          PCHECK(st == Status::SUCCESS && (s.a.skip && !s.raw ? true : v == sh->acked), "mp-value", "a writer reads %lld, %lld was acknowledged (%s)", (long long)v, (long long)sh->acked, SS(st).c_str());
          const int64_t nv = sh->acked + 1;
          st = s.Put(nv);
          PCHECK(st == Status::SUCCESS, "mp-put", "an update by a writer: %s", SS(st).c_str());
          sh->acked = nv;
          if (!s.raw && s.a.file_db) {
            if (g.P(10)) { st = s.db->Synchronize(false); PCHECK(st == Status::SUCCESS, "mp-sync", "Synchronize: %s", SS(st).c_str()); }
            if (g.P(10)) { st = s.db->Rebuild(); PCHECK(st == Status::SUCCESS, "mp-rebuild", "Rebuild: %s", SS(st).c_str()); }
            if (g.P(3)) { st = s.db->Clear(); PCHECK(st == Status::SUCCESS, "mp-clear", "Clear: %s", SS(st).c_str()); sh->acked = 0; }
          }
        } else {
          st = s.Value(&v);
          PCHECK(st == Status::SUCCESS && v == sh->acked, "mp-value", "a reader reads %lld, %lld was acknowledged (%s)", (long long)v, (long long)sh->acked, SS(st).c_str());
        }
        if (g.P(30)) usleep(g.U(300)); else if (g.P(50)) sched_yield();
      }
      PCHECK(w ? sh->writers == 1 && sh->readers == 0 : sh->writers == 0, "mp-overlap", "before closing by %s: %d writers and %d readers have it open", w ? "a writer" : "a reader", sh->writers.load(), sh->readers.load());
      if (w) sh->writers--; else sh->readers--;
      if (g.P(20)) { s.Drop(); s.Make(); }
      else { st = s.Close(); PCHECK(st == Status::SUCCESS, "mp-close", "Close: %s", SS(st).c_str()); }
      if (g.P(50)) usleep(g.U(400));
    }
    s.Drop();
  } catch (const ProcFail&) {
  } catch (const std::exception& e) {
    snprintf(sh->key[me], sizeof(sh->key[me]), "mp-exception");
    snprintf(sh->msg[me], sizeof(sh->msg[me]), "%s", e.what());
  }
  sh->done[me] = 1;
}
static void Processes(Ctx& c, Rng& g) {
  Subject s;
  const int t = (int)g.U(20);
  const bool onmem = t == 0;
  s.raw = t >= 14;
  s.a = MakeAny(g, c.dir, onmem ? std::vector<std::string>{"TinyDBM", "BabyDBM", "CacheDBM", "StdHashDBM", "StdTreeDBM"} : t < 11 ? std::vector<std::string>{"HashDBM", "TreeDBM", "SkipDBM"} : std::vector<std::string>{"HashDBM", "TreeDBM", "SkipDBM", "PolyDBM"}, false);
  if (!onmem && s.a.cls == "PolyDBM" && !s.a.file_db) { s.a = MakeAny(g, c.dir, {"HashDBM"}, false); }
  s.fc = s.a.fc;
  s.path = s.raw ? c.dir + "/rawfile" : s.a.path;
  c.desc = Fmt("processes %s", s.raw ? s.fc.Str().c_str() : s.a.desc.c_str());
  s.Make();
  Status st = s.Open(true, 0);
  VCHECK(c, st == Status::SUCCESS, "mp-open", "the first opening: %s", SS(st).c_str());
  st = s.Close();
  VCHECK(c, st == Status::SUCCESS, "mp-close", "the first closing: %s", SS(st).c_str());
  s.Drop();
  Shared* sh = SharedMem();
  const int np = (int)g.R(2, 4), rounds = (int)g.R(4, 12);
  std::vector<pid_t> pids;
  for (int i = 0; i < np; i++) {
    const uint64_t seed = g.Next();
    fflush(nullptr);
    const pid_t p = fork();
    if (p == 0) { Child(s, sh, i, seed, rounds); _exit(0); }
    pids.push_back(p);
  }
  const int64_t limit = NowNs() + 40000000000ll;
  int left = np;
  bool hung = false;
  std::string crash;
  while (left > 0) {
    for (auto& p : pids) if (p > 0) {
      int ws = 0;
      if (waitpid(p, &ws, WNOHANG) == p) {
        const int i = (int)(&p - &pids[0]);
        if (!sh->done[i]) crash = Fmt("a process ended abnormally (status %x)", ws);
        p = -1;
        left--;
      }
    }
    if (NowNs() > limit && !hung) { hung = true; for (auto& p : pids) if (p > 0) kill(p, SIGKILL); }
    if (left) usleep(200);
  }
  const char* pre = onmem ? "onmem-" : "";
  if (!crash.empty() && !hung) VCHECK(c, false, (std::string(pre) + "mp-crash").c_str(), "%s", crash.c_str());
  VCHECK(c, !hung, (std::string(pre) + "mp-hang").c_str(), "processes which share a file did not finish in 40 seconds");
  for (int i = 0; i < np; i++) {
    if (sh->key[i][0]) {
      if (onmem) { c.Record("onmem-mp", Fmt("process %d of %s: %s: %s", i, s.a.desc.c_str(), sh->key[i], sh->msg[i])); return; }
      VCHECK(c, false, sh->key[i], "process %d: %s", i, sh->msg[i]);
    }
  }
  s.Make();
  st = s.Open(false, File::OPEN_NO_WAIT);
  VCHECK(c, st == Status::SUCCESS, "mp-lock-left", "opening after all processes closed: %s", SS(st).c_str());
  int64_t v = -1;
  st = s.Value(&v);
  if (onmem && v != sh->acked) { c.Record("onmem-mp", Fmt("%s: %lld remains, %lld was acknowledged", s.a.desc.c_str(), (long long)v, (long long)sh->acked)); return; }
  VCHECK(c, st == Status::SUCCESS && v == sh->acked, "mp-final", "after all processes closed: %lld remains, %lld was acknowledged (%s)", (long long)v, (long long)sh->acked, SS(st).c_str());
  s.Drop();
  c.Stat("process_holds", sh->holds);
  c.Stat("process_refusals", sh->refusals);
  if (sh->refusals) c.Reach("refused-by-lock");
  c.Reach("processes:" + (s.raw ? std::string("file") : s.a.cls));
  c.Sig((uint64_t)sh->refusals * 1000 + sh->holds);
  c.nontrivial = true;
}
// One holder and one other process, in all combinations.
static void Matrix(Ctx& c, Rng& g) {
  FileCfg fc = FileCfg::Make(g, false);
  if (fc.options & PositionalFile::ACCESS_PADDING) fc.block = 0, fc.options = 0;
  c.desc = "lock matrix " + fc.Str();
  const std::string path = c.dir + "/file";
  const std::string body = g.Bytes(g.R(1, 5000));
  WriteAll(path, body);
  for (int i = 0; i < 6; i++) {
    const bool hw = g.P(50), tw = g.P(60), hl = g.P(80), tl = g.P(80), trunc = tw && g.P(40), wait = g.P(35);
    auto f = fc.New();
    Status st = f->Open(path, hw, hl ? 0 : File::OPEN_NO_LOCK);
    VCHECK(c, st == Status::SUCCESS, "lock-open", "the holder cannot open: %s", SS(st).c_str());
    const bool conflict = hl && tl && (hw || tw);
    Shared* sh = SharedMem();
    fflush(nullptr);
    const pid_t p = fork();
    if (p == 0) {
      auto f2 = fc.New();
      sh->stop = 1;
      const Status s2 = f2->Open(path, tw, (tl ? 0 : File::OPEN_NO_LOCK) | (wait ? 0 : File::OPEN_NO_WAIT) | (trunc ? File::OPEN_TRUNCATE : 0));
      sh->done[1] = 1 + (int)s2.GetCode();
      if (s2 == Status::SUCCESS) sh->acked = f2->GetSizeSimple();
      if (s2 == Status::SUCCESS && f2->Close() != Status::SUCCESS) sh->done[1] = 99;
      _exit(0);
    }
    int ws;
    if (conflict && wait) {
      while (!sh->stop) usleep(100);
      usleep(g.U(3000));
      VCHECK(c, sh->done[1] == 0, "lock-ignored", "%s opened while %s has it open (%s)", tw ? "a writer" : "a reader", hw ? "a writer" : "a reader", fc.Str().c_str());
      std::string b;
      int64_t n = f->GetSizeSimple();
      b.resize(n > 0 ? n : 0);
      st = b.empty() ? st : f->Read(0, &b[0], b.size());
      VCHECK(c, b == body, "lock-changed", "an opener (truncate=%d) which waits for the lock changed the file from %zu to %zu bytes", trunc, body.size(), b.size());
      st = f->Close();
      VCHECK(c, st == Status::SUCCESS, "lock-close", "Close: %s", SS(st).c_str());
    }
    const int64_t limit = NowNs() + 20000000000ll;
    bool hung = false;
    while (waitpid(p, &ws, WNOHANG) != p) { if (NowNs() > limit && !hung) { hung = true; kill(p, SIGKILL); } usleep(100); }
    VCHECK(c, !hung, "lock-hang", "an opener (writable=%d lock=%d wait=%d) does not get the file while the holder (writable=%d lock=%d) %s", tw, tl, wait, hw, hl, conflict && wait ? "has closed" : "has it open");
    const bool opened = sh->done[1] == 1 + (int)Status::SUCCESS;
    const bool want = !conflict || wait;
    VCHECK(c, opened == want, want ? "lock-refused" : "lock-ignored", "the holder: writable=%d lock=%d; the other: writable=%d lock=%d wait=%d: status code %d (%s)", hw, hl, tw, tl, wait, sh->done[1].load() - 1, fc.Str().c_str());
    if (f->IsOpen()) f->Close();
    std::string b;
    ReadAll(path, &b);
    if (opened && conflict) VCHECK(c, sh->acked == (trunc ? 0 : (int64_t)body.size()), "lock-size", "the opener (truncate=%d) sees %lld bytes", trunc, (long long)sh->acked);
    if (!(trunc && opened) && (conflict || !opened)) VCHECK(c, b == body, "lock-changed", "a refused opener (writable=%d truncate=%d) changed the file from %zu to %zu bytes", tw, trunc, body.size(), b.size());
    WriteAll(path, body);
    c.Stat("lock_combinations");
    c.Reach(Fmt("matrix:%d%d%d%d%d", hw, hl, tw, tl, wait));
  }
  c.nontrivial = true;
}

static void Case(Ctx& c, Rng& g, int64_t i) {
  const int t = (int)g.U(100);
  c.Sig(g.s);
  if (t < 45) Lifecycle(c, g);
  else if (t < 57) Files(c, g);
  else if (t < 68) Others(c, g);
  else if (t < 80) Matrix(c, g);
  else Processes(c, g);
}
int main(int argc, char** argv) { return Main(argc, argv, "C31", Case); }
