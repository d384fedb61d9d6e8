// C23: PolyDBM and ShardDBM are transparent adapters.
#include "anydb.h"
#include "tkrzw_dbm_ulog.h"
#include "tkrzw_message_queue.h"
using namespace vh;
using namespace tkrzw;
typedef std::map<std::string, std::string> SMap;

static bool LzmaOff(HashDBM::TuningParameters* t) {
  if (t->record_comp_mode == HashDBM::RECORD_COMP_LZMA) t->record_comp_mode = HashDBM::RECORD_COMP_ZSTD;
  return true;
}
// Attributes which are the same for the same history.
static std::vector<std::string> Attrs(DBM* d, bool sizes) {
  std::vector<std::string> r;
  for (auto& x : d->Inspect()) {
    const std::string& n = x.first;
    if (n.find("path") != std::string::npos || n.find("time") != std::string::npos || n.find("magic") != std::string::npos) continue;
    if (!sizes && n.find("size") != std::string::npos) continue;
    r.push_back(n + "=" + x.second);
  }
  return r;
}
static std::string AttrDiff(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
    const std::string x = i < a.size() ? a[i] : "(none)", y = i < b.size() ? b[i] : "(none)";
    if (x != y) return x + " vs " + y;
  }
  return "";
}
static File* FileOf(DBM* d) {
  if (auto* p = dynamic_cast<HashDBM*>(d)) return p->GetInternalFile();
  if (auto* p = dynamic_cast<TreeDBM*>(d)) return p->GetInternalFile();
  if (auto* p = dynamic_cast<SkipDBM*>(d)) return p->GetInternalFile();
  if (auto* p = dynamic_cast<TinyDBM*>(d)) return p->GetInternalFile();
  if (auto* p = dynamic_cast<BabyDBM*>(d)) return p->GetInternalFile();
  if (auto* p = dynamic_cast<CacheDBM*>(d)) return p->GetInternalFile();
  if (auto* p = dynamic_cast<StdHashDBM*>(d)) return p->GetInternalFile();
  if (auto* p = dynamic_cast<StdTreeDBM*>(d)) return p->GetInternalFile();
  return nullptr;
}
static std::string Mixed(Rng& g, std::string s) {
  const int m = (int)g.U(3);
  for (auto& x : s) if (m == 1 || (m == 2 && g.P(50))) x = (char)(g.P(50) ? toupper(x) : tolower(x));
  return s;
}
// Another documented spelling of the same parameter values.
static void Vary(Rng& g, SMap* p) {
  for (auto& x : *p) {
    const std::string &n = x.first, v = x.second;
    if (n == "cipher_key") continue;
    if (n == "file") {
      static const SMap alias = {{"StdFile", "std"}, {"MemoryMapParallelFile", "mmap-para"}, {"MemoryMapAtomicFile", "mmap-atom"}, {"PositionalParallelFile", "pos-para"}, {"PositionalAtomicFile", "pos-atom"}};
      x.second = Mixed(g, g.P(50) ? SearchMap(alias, v, v) : v);
    } else if (n == "update_mode" || n == "record_crc_mode" || n == "record_comp_mode" || n == "page_update_mode") {
      static const SMap alias = {{"UPDATE_IN_PLACE", "in_place"}, {"UPDATE_APPENDING", "appending"}, {"RECORD_CRC_NONE", "none"}, {"RECORD_CRC_8", "8"}, {"RECORD_CRC_16", "crc-16"}, {"RECORD_CRC_32", "crc_32"},
          {"RECORD_COMP_NONE", "none"}, {"RECORD_COMP_ZLIB", "deflate"}, {"RECORD_COMP_ZSTD", "zstd"}, {"RECORD_COMP_LZ4", "lz4"}, {"RECORD_COMP_LZMA", "xz"}, {"RECORD_COMP_RC4", "arcfour"},
          {"RECORD_COMP_AES", "rijndael"}, {"PAGE_UPDATE_NONE", "none"}, {"PAGE_UPDATE_WRITE", "write"}};
      x.second = Mixed(g, g.P(50) ? SearchMap(alias, v, v) : v);
    } else if (n == "key_comparator") {
      x.second = Mixed(g, g.P(50) && v.size() > 13 ? v.substr(0, v.size() - 13) : v);
    } else if (n == "access_options") {
      x.second = Mixed(g, v);
      if (g.P(30)) x.second = " " + x.second + " ";
    } else if (n == "cache_buckets") {
      x.second = v == "true" ? g.Pick<std::string>({"true", "TRUE", "1", "yes", "t"}) : g.Pick<std::string>({"false", "False", "0", "no"});
    } else if (n != "block_size" && n != "num_shards") {
      const long long k = atoll(v.c_str());
      if (k > 0 && k % 1000 == 0 && g.P(50)) x.second = Fmt("%lldK", k / 1000);
      else if (k > 0 && k % 1024 == 0 && g.P(50)) x.second = Fmt("%lldKi", k / 1024);
    }
  }
}
static std::string ParamStr(const SMap& p) { std::string s; for (auto& x : p) s += x.first + "=" + Show(x.second) + ","; return s; }
static const std::vector<std::string>& ClassNames(const std::string& cls) {
  static const std::map<std::string, std::vector<std::string>> m = {{"HashDBM", {"HashDBM", "hash"}}, {"TreeDBM", {"TreeDBM", "tree"}}, {"SkipDBM", {"SkipDBM", "skip"}}, {"TinyDBM", {"TinyDBM", "tiny"}},
      {"BabyDBM", {"BabyDBM", "baby"}}, {"CacheDBM", {"CacheDBM", "cache"}}, {"StdHashDBM", {"StdHashDBM", "stdhash"}}, {"StdTreeDBM", {"StdTreeDBM", "stdtree"}}};
  return m.at(cls);
}
static const std::vector<std::string>& Exts(const std::string& cls) {
  static const std::map<std::string, std::vector<std::string>> m = {{"HashDBM", {"tkh", "hash"}}, {"TreeDBM", {"tkt", "tree"}}, {"SkipDBM", {"tks", "skip"}}, {"TinyDBM", {"tkmt", "tiny", "flat"}},
      {"BabyDBM", {"tkmb", "baby"}}, {"CacheDBM", {"tkmc", "cache"}}, {"StdHashDBM", {"tksh", "stdhash"}}, {"StdTreeDBM", {"tkst", "stdtree"}}};
  return m.at(cls);
}
static void Walk(DBM* d, std::vector<std::pair<std::string, std::string>>* out, bool back = false) {
  auto it = d->MakeIterator();
  Status s = back ? it->Last() : it->First();
  while (s == Status::SUCCESS) {
    std::string k, v;
    if (it->Get(&k, &v) != Status::SUCCESS) break;
    out->emplace_back(k, v);
    s = back ? it->Previous() : it->Next();
  }
}

// One random operation; the outcome as a text.
struct Op {
  int what; std::string k, v, w; std::vector<std::pair<std::string, std::string>> m; int64_t n; bool f;
  static Op Make(Rng& g, const std::function<std::string()>& key, bool skip) {
    Op o;
    o.what = (int)g.U(skip ? 8 : 24);
    o.k = key(); o.v = g.Bytes(g.Pick({0, 1, 5, 30, 200, 1100})); o.w = g.Bytes(g.U(3)); o.n = g.R(-5, 5); o.f = g.P(50);
    const int cnt = (int)g.R(1, 5);
    for (int i = 0; i < cnt; i++) o.m.emplace_back(key(), g.P(20) ? "" : g.Bytes(g.U(30)));
    return o;
  }
  std::string Run(DBM* d) const {
    std::string old = "?", key2 = "?"; int64_t num = 0; Status s;
    auto code = [](const Status& x) { return std::string(Status::CodeName(x.GetCode())); };
    switch (what) {
      case 0: case 1: case 2: s = d->Set(k, v, f, &old); return "set " + code(s) + " " + Show(old);
      case 3: s = d->Remove(k, &old); return "remove " + code(s) + " " + Show(old);
      case 4: s = d->Get(k, &old); return "get " + code(s) + " " + Show(old);
      case 5: s = d->Count(&num); return "count " + code(s) + Fmt(" %lld", (long long)num);
      case 6: { std::vector<std::pair<std::string, std::string>> r; Walk(d, &r); std::string t = "walk"; for (auto& x : r) t += " " + Show(x.first) + "=" + Show(x.second); return t; }
      case 7: s = d->Set(k, v); return "set " + code(s);
      case 8: s = d->Append(k, v, w); return "append " + code(s);
      case 9: s = d->Increment("num" + std::to_string(n & 3), n, &num, 100); return "inc " + code(s) + Fmt(" %lld", (long long)num);
      case 10: s = d->CompareExchange(k, f ? std::string_view() : std::string_view(v), v); return "cmpex " + code(s);
      case 11: {
        std::vector<std::pair<std::string_view, std::string_view>> e, ds;
        for (size_t i = 0; i < m.size(); i++) (i % 2 && f ? e : ds).emplace_back(m[i].first, m[i].second.empty() ? std::string_view() : std::string_view(m[i].second));
        s = d->CompareExchangeMulti(e, ds); return "cmpexm " + code(s);
      }
      case 12: {
        std::map<std::string_view, std::string_view> x; for (auto& y : m) x.emplace(y.first, y.second);
        s = d->SetMulti(x, f); return "setm " + code(s);
      }
      case 13: {
        std::vector<std::string_view> x; for (auto& y : m) x.emplace_back(y.first);
        s = d->RemoveMulti(x); return "removem " + code(s);
      }
      case 14: {
        std::vector<std::string_view> x; for (auto& y : m) x.emplace_back(y.first);
        std::map<std::string, std::string> r; s = d->GetMulti(x, &r); std::string t = "getm " + code(s); for (auto& y : r) t += " " + Show(y.first) + "=" + Show(y.second); return t;
      }
      case 15: s = d->Rekey(k, m[0].first, f, n > 0, &old); return "rekey " + code(s) + " " + Show(old);
      case 16: s = d->CompareExchange(k, f ? DBM::ANY_DATA : std::string_view(v), w, &old); return "cmpexa " + code(s) + " " + Show(old);
      case 17: {
        std::vector<std::string> log; bool rem = n > 3;
        auto f2 = [&](std::string_view kk, std::string_view vv) -> std::string_view {
          if (kk.data() == DBM::RecordProcessor::NOOP.data()) { log.push_back("|"); return DBM::RecordProcessor::NOOP; }
          log.push_back(std::string(kk) + "=" + std::string(vv));
          if (!f || vv.data() == DBM::RecordProcessor::NOOP.data()) return DBM::RecordProcessor::NOOP;
          if (HashStr(kk) % 7 == 0 && rem) return DBM::RecordProcessor::REMOVE;
          return HashStr(kk) % 5 == 0 ? std::string_view(w) : DBM::RecordProcessor::NOOP;
        };
        s = d->ProcessEach(f2, f); std::string t = "each " + code(s); std::sort(log.begin(), log.end()); for (auto& x : log) t += " " + Show(x); return t;
      }
      case 18: { auto it = d->MakeIterator(); s = it->Jump(k); std::string t = "jump " + code(s); s = it->Get(&key2, &old); t += " " + code(s) + " " + Show(key2) + " " + Show(old); s = it->Next(); t += code(s); s = it->Get(&key2); return t + code(s) + Show(key2); }
      case 19: { auto it = d->MakeIterator(); s = f ? it->JumpLower(k, n > 0) : it->JumpUpper(k, n > 0); std::string t = "jumplu " + code(s); s = it->Get(&key2, &old); return t + " " + code(s) + " " + Show(key2) + " " + Show(old); }
      case 20: { auto it = d->MakeIterator(); s = it->First(); std::string t = "itset " + code(s); s = it->Set(v, &key2, &old); t += code(s) + Show(key2) + Show(old); if (f) { s = it->Remove(&key2, &old); t += code(s) + Show(key2) + Show(old); } return t; }
      case 21: {
        std::vector<std::pair<std::string_view, DBM::RecordProcessor*>> pr; std::vector<DBM::RecordProcessorGet> gets; 
        class P : public DBM::RecordProcessor { public: std::string* log; std::string_view val; std::string_view ProcessFull(std::string_view k, std::string_view v) override { *log += " F" + Show(k) + Show(v); return val.empty() ? REMOVE : val; } std::string_view ProcessEmpty(std::string_view k) override { *log += " E" + Show(k); return val; } };
        std::vector<P> ps(m.size()); std::vector<std::string> logs(m.size());
        for (size_t i = 0; i < m.size(); i++) { ps[i].log = &logs[i]; ps[i].val = m[i].second; pr.emplace_back(m[i].first, &ps[i]); }
        s = d->ProcessMulti(pr, true); std::string t = "procm " + code(s); for (auto& x : logs) t += x; return t;
      }
      case 22: { if (!f) return ""; s = d->PopFirst(&key2, &old); return "pop " + code(s) + " " + Show(key2) + " " + Show(old); }
      default: { bool b = false; s = d->ShouldBeRebuilt(&b); int64_t z = 0; return "attr " + code(s) + Fmt(" %d %d %d %d", b, d->IsOpen(), d->IsWritable(), d->IsOrdered()) + code(d->GetFileSize(&z)); }
    }
  }
};
// Operations the order of which depends on the structure (not comparable with a differently structured database).
static bool OrderDependent(int w) { return w == 6 || w == 18 || w == 20 || w == 22 || w == 23; }

static const std::vector<std::string> kAll = {"HashDBM", "TreeDBM", "SkipDBM", "TinyDBM", "BabyDBM", "CacheDBM", "StdHashDBM", "StdTreeDBM"};

static std::function<std::string()> Keys(Rng& g, const KeyOrder* o) {
  const int space = (int)g.Pick({3, 10, 40, 150});
  return [&g, o, space]() -> std::string { return o->make ? o->make(g, space) : g.P(90) ? Fmt("k%03d", (int)g.U(space)) : g.Bytes(g.Pick({0, 1, 4, 130})); };
}
static std::unique_ptr<DBM> Direct(const AnyDB& a, bool bound) {
  AnyDB b = a; b.cls = a.inner; b.bound = bound; return b.New();
}
static Status DirectOpen(const AnyDB& a, DBM* d, const std::string& path, bool writable, int opt) {
  if (a.inner == "HashDBM") return static_cast<HashDBM*>(d)->OpenAdvanced(path, writable, opt, a.hp);
  if (a.inner == "TreeDBM") return static_cast<TreeDBM*>(d)->OpenAdvanced(path, writable, opt, a.tp);
  if (a.inner == "SkipDBM") return static_cast<SkipDBM*>(d)->OpenAdvanced(path, writable, opt, a.sp);
  return d->Open(path, writable, opt);
}

static void PolyTwin(Ctx& c, Rng& g) {
  AnyOpt ao; ao.classes = {"PolyDBM"}; ao.small = g.P(50);
  for (auto& x : kAll) ao.classes.push_back(x);
  AnyDB a = AnyDB::Make(g, c.dir, ao);
  while (a.cls != "PolyDBM") { a = AnyDB::Make(g, c.dir, ao); }
  LzmaOff(&a.hp); LzmaOff(&a.tp);
  a.fc.alloc_init = 0;
  if (a.inner == "CacheDBM" && g.P(60)) { a.cap_rec = g.Pick<int64_t>({32, 100, 1000}); if (g.P(50)) a.cap_mem = g.Pick<int64_t>({4000, 20000, 1024 * 1024}); }
  if (a.skip) a.sp.insert_in_order = g.P(25);
  a.params.clear(); a.MakeParams();
  if (a.inner == "HashDBM" && a.hp.cache_buckets < 0) a.hp.cache_buckets = 0;
  if (a.inner == "TreeDBM" && a.tp.cache_buckets < 0) a.tp.cache_buckets = 0;
  if (a.cap_rec > 0) a.params["cap_rec_num"] = std::to_string(a.cap_rec);
  if (a.cap_mem > 0) a.params["cap_mem_size"] = std::to_string(a.cap_mem);
  if (a.skip && a.sp.insert_in_order) a.params["insert_in_order"] = "true";
  HashDBM::TuningParameters* ht = a.inner == "HashDBM" ? &a.hp : a.inner == "TreeDBM" ? (HashDBM::TuningParameters*)&a.tp : nullptr;
  const bool bound = a.file_db || g.P(70);
  std::string pp, pd = c.dir + "/direct";
  if (bound) {
    if (g.P(60)) { pp = c.dir + "/poly." + Mixed(g, g.Pick(Exts(a.inner))) + (g.P(20) ? "-00000-of-00001" : ""); if (g.P(30)) a.params["dbm"] = Mixed(g, g.Pick(ClassNames(a.inner))); }
    else { pp = c.dir + "/poly" + (g.P(50) ? "" : ".tkt"); a.params["dbm"] = Mixed(g, g.Pick(ClassNames(a.inner))); }
  } else if (a.inner != "TinyDBM" || g.P(50)) a.params["dbm"] = Mixed(g, g.Pick(ClassNames(a.inner)));
  Vary(g, &a.params);
  std::string prefix; int64_t mfs = 0; int sid = 0, dbi = 0;
  if (g.P(25)) {
    prefix = c.dir + "/ulog"; a.params["ulog_prefix"] = prefix;
    if (g.P(60)) { mfs = g.Pick<int64_t>({1024, 5000, 2000000}); a.params["ulog_max_file_size"] = mfs == 1024 ? "1Ki" : std::to_string(mfs); }
    if (g.P(60)) { sid = (int)g.U(100); a.params["ulog_server_id"] = std::to_string(sid); }
    if (g.P(60)) { dbi = (int)g.U(100); a.params["ulog_dbm_index"] = std::to_string(dbi); }
  }
  Describe(c, "poly " + a.inner + " path=" + pp + " " + ParamStr(a.params));
  c.Sig(c.desc);
  auto p = std::make_unique<PolyDBM>();
  // A wrong parameter is refused; the object is usable after that.
  if (g.P(40)) {
    SMap bad = a.params;
    std::string bp = pp;
    const int k = (int)g.U(5);
    if (k == 0) bad["no_such"] = "1";
    else if (k == 1) bad["file"] = "PosFile";
    else if (k == 2) bad["dbm"] = "nodbm";
    else if (k == 3 && (a.inner == "TreeDBM" || a.inner == "BabyDBM")) bad["key_comparator"] = "NoComparator";
    else bad["ulog_no_such"] = "1";
    Status s = p->OpenAdvanced(bp, true, File::OPEN_DEFAULT, bad);
    VCHECK(c, s == Status::INVALID_ARGUMENT_ERROR, "badparam", "opening with %s gave %s", ParamStr(bad).c_str(), SS(s).c_str());
    VCHECK(c, !p->IsOpen() && !p->IsWritable(), "badparam-open", "the database is open after a refused opening");
    std::string v;
    VCHECK(c, p->Get("a", &v) == Status::PRECONDITION_ERROR, "badparam-get", "Get works after a refused opening");
    c.Stat("refused openings");
    if (k == 4 && !pp.empty()) RemoveFile(pp);
  }
  bool wr = true, truncated = false; int opt = File::OPEN_DEFAULT;
  Status s = p->OpenAdvanced(pp, wr, opt, a.params);
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  auto d = Direct(a, true);
  if (bound) { s = DirectOpen(a, d.get(), pd, true, opt); VCHECK(c, s == Status::SUCCESS, "open-direct", "%s", SS(s).c_str()); }
  auto sides = [&](const char* when) {
    VCHECK(c, p->GetInternalDBM() != nullptr && p->GetInternalDBM()->GetType() == d->GetType(), "class", "%s: the internal database isn't a %s", when, a.inner.c_str());
    File *fp = FileOf(p->GetInternalDBM()), *fd = FileOf(d.get());
    VCHECK(c, fp && fd && fp->GetType() == fd->GetType(), "file-class", "%s: different file classes", when);
    auto *xp = dynamic_cast<PositionalFile*>(fp), *xd = dynamic_cast<PositionalFile*>(fd);
    if (xp && xd) VCHECK(c, xp->GetBlockSize() == xd->GetBlockSize() && xp->IsDirectIO() == xd->IsDirectIO(), "file-block", "%s: block sizes %lld and %lld", when, (long long)xp->GetBlockSize(), (long long)xd->GetBlockSize());
    const std::string df = AttrDiff(Attrs(p.get(), true), Attrs(d.get(), true));
    VCHECK(c, df.empty(), "attributes", "%s: %s", when, df.c_str());
  };
  sides("opened");
  auto key = Keys(g, a.order);
  auto one = [&](int i) {
    Op o = Op::Make(g, key, a.skip);
    const std::string x = o.Run(d.get()), y = o.Run(p.get());
    c.T(Fmt("%d ", i) + Show(o.k).substr(0, 40) + " " + x.substr(0, 200));
    VCHECK(c, x == y, "result", "step %d %s: the class gives %s, PolyDBM %s", i, Show(o.k).c_str(), x.c_str(), y.c_str());
    c.Stat("operations on poly");
  };
  auto same = [&](const char* when) {
    std::vector<std::pair<std::string, std::string>> x, y;
    Walk(d.get(), &x); Walk(p.get(), &y);
    VCHECK(c, x == y, "contents", "%s: %zu records listed by the class, %zu by PolyDBM, or in other order", when, x.size(), y.size());
    if (a.ordered) { x.clear(); y.clear(); Walk(d.get(), &x, true); Walk(p.get(), &y, true); VCHECK(c, x == y, "contents-back", "%s", when); }
  };
  const int rounds = (int)g.R(1, 4);
  for (int r = 0; r < rounds; r++) {
    const int n = (int)g.Pick({5, 30, 100});
    for (int i = 0; i < n; i++) one(i);
    if (a.skip) { Status x = d->Synchronize(false), y = p->Synchronize(false); VCHECK(c, x == y, "sync", "%s %s", SS(x).c_str(), SS(y).c_str()); }
    same("after operations");
    if (!a.skip || !a.sp.insert_in_order) sides("after operations");
    const int k = (int)g.U(5);
    if (k == 0 && a.skip) {
      std::string rn = g.Pick<std::string>({"ReduceRemove", "remove", "Remove", "ReduceToFirst", "first", "FIRST", "ReduceToSecond", "second", "ReduceToLast", "last", "ReduceConcat", "concat", "ReduceConcatWithNull", "concatnull", "ReduceConcatWithTab", "concattab", "ReduceConcatWithLine", "concatline", "ReduceToTotal", "total", "ReduceToTotalBigEndian", "totalbigendian", "totalbe"});
      const std::string low = StrLowerCase(rn);
      auto is = [&](const char* x) { return low.find(x) != std::string::npos; };
      SkipDBM::ReducerType rd = is("remove") ? SkipDBM::ReduceRemove : is("first") ? SkipDBM::ReduceToFirst : is("second") ? SkipDBM::ReduceToSecond : is("last") ? SkipDBM::ReduceToLast : is("null") ? SkipDBM::ReduceConcatWithNull : is("tab") ? SkipDBM::ReduceConcatWithTab
          : is("line") ? SkipDBM::ReduceConcatWithLine : is("concat") ? SkipDBM::ReduceConcat : is("big") || is("totalbe") ? SkipDBM::ReduceToTotalBigEndian : SkipDBM::ReduceToTotal;
      // the records of another database are merged
      const std::string mp = c.dir + "/merge.tks";
      SkipDBM m; m.Open(mp, true, File::OPEN_TRUNCATE); for (int i = 0; i < 5; i++) m.Set(key(), g.P(50) ? "5" : "xyz"); m.Close();
      auto* sd = static_cast<SkipDBM*>(d.get());
      for (int i = 0; i < 3; i++) { const std::string kk = key(), vv = std::to_string(g.U(100)); Status x = d->Set(kk, vv), y = p->Set(kk, vv); VCHECK(c, x == y, "set", "%s %s", SS(x).c_str(), SS(y).c_str()); }
      Status x = sd->MergeSkipDatabase(mp);
      if (x == Status::SUCCESS) x = sd->SynchronizeAdvanced(false, nullptr, rd);
      Status y = p->SynchronizeAdvanced(false, nullptr, {{"merge", mp}, {"reducer", Mixed(g, rn)}});
      VCHECK(c, x == y, "merge", "reducer %s: the class %s, PolyDBM %s", rn.c_str(), SS(x).c_str(), SS(y).c_str());
      VCHECK(c, p->SynchronizeAdvanced(false, nullptr, {{"reducer", "nothing"}}) == Status::INVALID_ARGUMENT_ERROR, "reducer-bad", "an unknown reducer is accepted");
      same("after merging");
      c.Stat("merges");
    } else if (k <= 1) {
      SMap q; Status x;
      if (ht) {
        HashDBM::TuningParameters t0; TreeDBM::TuningParameters t1; HashDBM::TuningParameters& t = a.inner == "HashDBM" ? t0 : t1;
        if (g.P(50)) { t.update_mode = g.P(50) ? HashDBM::UPDATE_IN_PLACE : HashDBM::UPDATE_APPENDING; q["update_mode"] = t.update_mode == HashDBM::UPDATE_IN_PLACE ? "UPDATE_IN_PLACE" : "UPDATE_APPENDING"; }
        if (g.P(50)) { t.record_crc_mode = (HashDBM::RecordCRCMode)g.R(1, 4); static const char* m[] = {"", "none", "8", "16", "32"}; q["record_crc_mode"] = m[t.record_crc_mode]; }
        if (g.P(30)) { t.record_comp_mode = HashDBM::RECORD_COMP_ZSTD; q["record_comp_mode"] = "zstd"; }
        else if (g.P(30)) { t.record_comp_mode = HashDBM::RECORD_COMP_AES; t.cipher_key = "newkey"; q["record_comp_mode"] = "aes"; q["cipher_key"] = "newkey"; }
        if (g.P(30)) { t.offset_width = (int)g.R(4, 6); q["offset_width"] = std::to_string(t.offset_width); }
        if (g.P(30)) { t.align_pow = (int)g.U(8); q["align_pow"] = std::to_string(t.align_pow); }
        if (g.P(50)) { t.num_buckets = g.Pick<int64_t>({1, 10, 1000, 2048}); q["num_buckets"] = std::to_string(t.num_buckets); }
        if (g.P(30)) { t.fbp_capacity = (int)g.Pick({1, 64}); q["fbp_capacity"] = std::to_string(t.fbp_capacity); }
        t.cache_buckets = 0;
        if (&t == &t1) {
          if (g.P(40)) { t1.max_page_size = (int)g.Pick({50, 500}); q["max_page_size"] = std::to_string(t1.max_page_size); }
          if (g.P(40)) { t1.max_branches = (int)g.Pick({2, 10}); q["max_branches"] = std::to_string(t1.max_branches); }
          if (g.P(40)) { t1.max_cached_pages = (int)g.Pick({5, 100}); q["max_cached_pages"] = std::to_string(t1.max_cached_pages); }
        }
        if (g.P(20)) q["skip_broken_records"] = "true";
        if (g.P(20)) q["sync_hard"] = "true";
        Vary(g, &q);
        x = &t == &t0 ? static_cast<HashDBM*>(d.get())->RebuildAdvanced(t0, SearchMap(q, "skip_broken_records", "") == "true") : static_cast<TreeDBM*>(d.get())->RebuildAdvanced(t1, SearchMap(q, "skip_broken_records", "") == "true");
      } else if (a.skip) {
        SkipDBM::TuningParameters t;
        if (g.P(50)) { t.offset_width = (int)g.R(3, 6); q["offset_width"] = std::to_string(t.offset_width); }
        if (g.P(50)) { t.step_unit = (int)g.R(2, 9); q["step_unit"] = std::to_string(t.step_unit); }
        if (g.P(50)) { t.max_level = (int)g.R(1, 9); q["max_level"] = std::to_string(t.max_level); }
        x = static_cast<SkipDBM*>(d.get())->RebuildAdvanced(t);
      } else if (a.inner == "TinyDBM") {
        int64_t nb = -1; if (g.P(60)) { nb = g.R(1, 2000); q["num_buckets"] = std::to_string(nb); }
        x = static_cast<TinyDBM*>(d.get())->RebuildAdvanced(nb);
      } else if (a.inner == "CacheDBM") {
        int64_t cr = -1, cm = -1;
        if (g.P(50)) { cr = g.R(32, 1000); q["cap_rec_num"] = std::to_string(cr); }
        if (g.P(30)) { cm = g.R(3000, 100000); q["cap_mem_size"] = std::to_string(cm); }
        x = static_cast<CacheDBM*>(d.get())->RebuildAdvanced(cr, cm);
      } else x = d->Rebuild();
      Status y = p->RebuildAdvanced(q);
      c.T("rebuild " + ParamStr(q) + SS(x));
      VCHECK(c, x == y, "rebuild", "%s: the class %s, PolyDBM %s", ParamStr(q).c_str(), SS(x).c_str(), SS(y).c_str());
      if (x == Status::SUCCESS && SearchMap(q, "cipher_key", "") != "") { ht->cipher_key = "newkey"; a.params["cipher_key"] = "newkey"; }
      q["no_such"] = "1";
      VCHECK(c, p->RebuildAdvanced(q) == Status::INVALID_ARGUMENT_ERROR, "rebuild-bad", "an unknown parameter is accepted");
      same("after rebuilding");
      sides("after rebuilding");
      c.Stat("rebuilds");
    } else if (k == 2) {
      Status x = d->Clear(), y = p->Clear();
      VCHECK(c, x == y, "clear", "%s %s", SS(x).c_str(), SS(y).c_str());
    } else if (k == 3 && bound) {
      // an unclosed copy is opened with a restore mode
      if (ht && !(a.fc.options & PositionalFile::ACCESS_PADDING) && a.fc.block <= 1) {
        Status x = d->Synchronize(false), y = p->Synchronize(false);
        VCHECK(c, x == y, "sync", "%s %s", SS(x).c_str(), SS(y).c_str());
        for (int i = 0; i < 5; i++) one(i);
        const std::string cp = c.dir + "/copy-p", cd = c.dir + "/copy-d";
        // the same image is opened in both ways
        CopyFileData(pd, cd); CopyFileData(pd, cp);
        int mode = (int)g.U(4); std::string t = mode == 0 ? g.Pick<std::string>({"", "default"}) : mode == 1 ? g.Pick<std::string>({"RESTORE_SYNC", "sync"}) : mode == 2 ? g.Pick<std::string>({"RESTORE_READ_ONLY", "read_only"}) : g.Pick<std::string>({"RESTORE_NOOP", "noop"});
        if (g.P(30)) { mode |= HashDBM::RESTORE_NO_SHORTCUTS; t += g.P(50) ? ":no_shortcuts" : ":RESTORE_NO_SHORTCUTS"; }
        if (g.P(20)) { mode |= HashDBM::RESTORE_WITH_HARDSYNC; t += ":with_hardsync"; }
        SMap q = a.params; for (auto it = q.begin(); it != q.end();) it = StrBeginsWith(it->first, "ulog") ? q.erase(it) : ++it;
        q["restore_mode"] = Mixed(g, t); q["dbm"] = a.inner;
        PolyDBM pc; AnyDB b = a; b.hp.restore_mode = b.tp.restore_mode = mode;
        auto dc = Direct(a, true);
        const bool w2 = g.P(80);
        x = DirectOpen(b, dc.get(), cd, w2, opt); y = pc.OpenAdvanced(cp, w2, opt, q);
        VCHECK(c, x == y, "restore-open", "restore_mode=%s: the class %s, PolyDBM %s", t.c_str(), SS(x).c_str(), SS(y).c_str());
        if (x == Status::SUCCESS) {
          const std::string df = AttrDiff(Attrs(&pc, true), Attrs(dc.get(), true));
          VCHECK(c, df.empty(), "restore-attributes", "restore_mode=%s: %s", t.c_str(), df.c_str());
          std::vector<std::pair<std::string, std::string>> u, v; Walk(dc.get(), &u); Walk(&pc, &v);
          VCHECK(c, u == v, "restore-contents", "restore_mode=%s: %zu and %zu records", t.c_str(), u.size(), v.size());
          pc.Close(); dc->Close();
        }
        RemoveFile(cp); RemoveFile(cd);
        c.Stat("openings with a restore mode");
      }
    }
    if (bound && g.P(50)) {
      Status x = d->Close(), y = p->Close();
      const bool padro = !wr && (a.fc.options & PositionalFile::ACCESS_PADDING);  // unsupported
      VCHECK(c, x == y && (x == Status::SUCCESS || padro), "close", "the class %s, PolyDBM %s", SS(x).c_str(), SS(y).c_str());
      VCHECK(c, !p->IsOpen() && p->Close() == Status::PRECONDITION_ERROR, "close-open", "open after Close");
      wr = g.P(75); opt = wr && g.P(10) ? File::OPEN_TRUNCATE : g.P(20) ? File::OPEN_NO_CREATE : File::OPEN_DEFAULT;
      if (!wr) opt &= ~File::OPEN_TRUNCATE;
      if (opt & File::OPEN_TRUNCATE) truncated = true;
      if (!wr && !prefix.empty()) wr = true;
      if (g.P(30)) p = std::make_unique<PolyDBM>();
      d = Direct(a, true);  // a reopened PolyDBM makes a new object too
      x = DirectOpen(a, d.get(), pd, wr, opt); y = p->OpenAdvanced(pp, wr, opt, a.params);
      VCHECK(c, x == y && x == Status::SUCCESS, "reopen", "the class %s, PolyDBM %s", SS(x).c_str(), SS(y).c_str());
      VCHECK(c, p->OpenAdvanced(pp, wr, opt, a.params) == Status::PRECONDITION_ERROR, "reopen-twice", "an open database is opened");
      same("after reopening");
      sides("after reopening");
      c.Stat("reopenings");
    }
  }
  if (!prefix.empty()) {
    // the update log makes the same contents
    std::vector<std::pair<std::string, std::string>> x; std::string log;
    const bool judge = a.inner != "CacheDBM" && a.inner != "SkipDBM";
    Walk(p.get(), &x);
    SMap want(x.begin(), x.end());
    if (bound) p->Close(); else { p.reset(); }
    c.Stat("update logs");
    MessageQueue mq;
    s = mq.Open(prefix, 1 << 20, MessageQueue::OPEN_READ_ONLY);
    VCHECK(c, s == Status::SUCCESS, "ulog-open", "%s", SS(s).c_str());
    auto rd = mq.MakeReader(0);
    std::string m; int64_t ts = 0, n = 0;
    while (rd->Read(&ts, &m, 0) == Status::SUCCESS) {
      DBMUpdateLoggerMQ::UpdateLog u;
      VCHECK(c, DBMUpdateLoggerMQ::ParseUpdateLog(m, &u) == Status::SUCCESS, "ulog-parse", "message %lld", (long long)n);
      VCHECK(c, u.server_id == sid && u.dbm_index == dbi, "ulog-ids", "server %d index %d, wanted %d %d", (int)u.server_id, (int)u.dbm_index, sid, dbi);
      n++;
    }
    if (judge && !truncated && a.order == &KeyOrders()[0]) {
      StdTreeDBM rep;
      s = DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(&rep, prefix);
      std::vector<std::pair<std::string, std::string>> y; Walk(&rep, &y);
      VCHECK(c, s == Status::SUCCESS && SMap(y.begin(), y.end()) == want, "ulog-replay", "%s: %zu records replayed, %zu in the database", SS(s).c_str(), y.size(), want.size());
    }
    if (mfs == 1024) {
      std::vector<std::string> paths; MessageQueue::FindFiles(prefix, &paths);
      int64_t total = 0, big = 0;
      for (auto& q : paths) { const int64_t z = GetFileSize(q); total += z; if (z > mfs + 4000) big++; }
      VCHECK(c, big == 0, "ulog-size", "%lld files are larger than the limit", (long long)big);
    }
  }
  c.nontrivial = true;
}

static std::set<std::string> Names(const std::string& dir, const std::string& base) {
  std::vector<std::string> ch; ReadDirectory(dir, &ch); std::set<std::string> r;
  for (auto& x : ch) if (StrBeginsWith(x, base)) r.insert(x);
  return r;
}
static void Shard(Ctx& c, Rng& g) {
  AnyOpt ao; ao.classes = kAll; ao.classes.push_back("ShardDBM"); ao.small = g.P(50); ao.tiny_trees = g.P(40);
  AnyDB a = AnyDB::Make(g, c.dir, ao);
  while (a.cls != "ShardDBM") a = AnyDB::Make(g, c.dir, ao);
  LzmaOff(&a.hp); LzmaOff(&a.tp); a.fc.alloc_init = 0;
  a.params.clear();
  a.shards = (int)g.Pick({1, 2, 3, 4, 7, 10, 12});
  a.MakeParams();
  const bool bound = a.file_db || g.P(75);
  const std::string base = g.Pick<std::string>({"db", "db.x-00000-of-", "a-b"}) + "." + Exts(a.inner)[0];
  std::string path = bound ? c.dir + "/" + base : "";
  if (!bound || g.P(40)) a.params["dbm"] = a.inner;
  SMap np = a.params; np.erase("num_shards");
  Describe(c, Fmt("shard x%d ", a.shards) + a.inner + " path=" + path + " " + ParamStr(a.params));
  c.Sig(c.desc);
  auto d = std::make_unique<ShardDBM>();
  Status s;
  if (g.P(35)) {
    SMap bad = a.params; const int k = (int)g.U(3);
    if (k == 0) bad["no_such"] = "1"; else if (k == 1) bad["dbm"] = "nodbm"; else bad["ulog_no_such"] = "1";
    const int times = (int)g.R(1, 2);
    for (int i = 0; i < times; i++) {
      s = d->OpenAdvanced(path, true, File::OPEN_DEFAULT, bad);
      VCHECK(c, s == Status::INVALID_ARGUMENT_ERROR, "shard-badparam", "%s gave %s", ParamStr(bad).c_str(), SS(s).c_str());
      VCHECK(c, !d->IsOpen(), "shard-badparam-open", "open after a refused opening");
    }
    c.Stat("refused openings");
  }
  s = d->OpenAdvanced(path, true, File::OPEN_DEFAULT, a.params);
  VCHECK(c, s == Status::SUCCESS, "shard-open", "%s", SS(s).c_str());
  // The reference: one database of the same class.
  AnyDB one = a; one.cls = a.inner; one.bound = true;
  auto ref = one.New();
  if (a.file_db) { s = DirectOpen(one, ref.get(), c.dir + "/ref", true, 0); VCHECK(c, s == Status::SUCCESS, "ref-open", "%s", SS(s).c_str()); }
  auto key = Keys(g, a.order);
  const std::string fmt = "-%05d-of-%05d";
  auto shardname = [&](const std::string& b, int i) { return b + Fmt("-%05d-of-%05d", i, a.shards); };
  auto contents = [&](DBM* x) { std::vector<std::pair<std::string, std::string>> v; Walk(x, &v); if (!a.ordered) std::sort(v.begin(), v.end()); return v; };
  auto check = [&](const char* when) {
    auto x = contents(ref.get()), y = contents(d.get());
    VCHECK(c, x == y, "shard-contents", "%s: one database lists %zu records, the sharded one %zu (or other order/values)", when, x.size(), y.size());
    if (a.ordered) { x.clear(); y.clear(); Walk(ref.get(), &x, true); Walk(d.get(), &y, true); VCHECK(c, x == y, "shard-back", "%s: backward %zu vs %zu", when, x.size(), y.size()); }
    VCHECK(c, d->CountSimple() == ref->CountSimple(), "shard-count", "%s: %lld vs %lld", when, (long long)d->CountSimple(), (long long)ref->CountSimple());
    VCHECK(c, d->IsOrdered() == a.ordered, "shard-ordered", "%s", when);
    // the attributes of each shard
    std::map<std::string, std::string> ins; for (auto& r : d->Inspect()) ins[r.first] = r.second;
    int64_t n = 0, z = 0; double oldest = 1e300;
    for (int i = 0; i < a.shards; i++) {
      const std::string pre = Fmt("%05d-", i);
      n += StrToInt(SearchMap(ins, pre + "num_records", "0")); z += StrToInt(SearchMap(ins, pre + "file_size", "0"));
      VCHECK(c, SearchMap(ins, pre + "class", "?") == SearchMap(ins, "class", ""), "shard-class", "%s: shard %d is %s", when, i, SearchMap(ins, pre + "class", "?").c_str());
      if (ins.count(pre + "timestamp")) oldest = std::min(oldest, StrToDouble(ins[pre + "timestamp"]));
      if (bound) VCHECK(c, SearchMap(ins, pre + "path", "?") == shardname(path, i), "shard-path", "%s: shard %d is %s", when, i, SearchMap(ins, pre + "path", "?").c_str());
    }
    VCHECK(c, !ins.count(Fmt("%05d-class", a.shards)), "shard-number", "%s: more than %d shards", when, a.shards);
    VCHECK(c, StrToInt(ins["num_records"]) == n && n == d->CountSimple(), "shard-sum", "%s: num_records=%s, sum %lld, Count %lld", when, ins["num_records"].c_str(), (long long)n, (long long)d->CountSimple());
    if (bound && z > 0) VCHECK(c, d->GetFileSizeSimple() == z && StrToInt(ins["file_size"]) == z, "shard-size", "%s: GetFileSize %lld, sum %lld", when, (long long)d->GetFileSizeSimple(), (long long)z);
    double ts = -1; s = d->GetTimestamp(&ts);
    if (oldest < 1e300) VCHECK(c, s == Status::SUCCESS && std::abs(ts - oldest) < 1e-3, "shard-timestamp", "%s: GetTimestamp %f, the oldest of the shards %f", when, ts, oldest);
    if (bound) { std::string gp; d->GetFilePath(&gp); VCHECK(c, gp == path, "shard-getpath", "%s: %s", when, gp.c_str()); }
  };
  auto files = [&](const std::string& b, const char* when) {
    std::set<std::string> want; for (int i = 0; i < a.shards; i++) want.insert(shardname(b, i));
    auto got = Names(c.dir, b + "-");
    for (auto& w : want) VCHECK(c, got.count(w), "shard-files", "%s: no file %s", when, w.c_str());
    for (auto& w : got) VCHECK(c, want.count(w) || w.find(".tmp.") != std::string::npos, "shard-files-extra", "%s: a file %s", when, w.c_str());
  };
  // every record is in exactly one shard, found by PolyDBM
  auto disjoint = [&](const std::string& b, const char* when) {
    SMap all; int64_t total = 0;
    SMap q = np; if (!a.params.count("dbm")) q["dbm"] = a.inner;
    q.erase("dbm"); q["dbm"] = a.inner;
    for (int i = 0; i < a.shards; i++) {
      PolyDBM pd; Status x = pd.OpenAdvanced(c.dir + "/" + shardname(b, i), false, 0, q);
      VCHECK(c, x == Status::SUCCESS, "shard-file-open", "%s: shard %d: %s", when, i, SS(x).c_str());
      std::vector<std::pair<std::string, std::string>> v; Walk(&pd, &v); total += v.size(); all.insert(v.begin(), v.end());
    }
    auto x = contents(ref.get());
    VCHECK(c, total == (int64_t)x.size() && all == SMap(x.begin(), x.end()), "shard-union", "%s: %lld records in the files (%zu distinct), %zu in one database", when, (long long)total, all.size(), x.size());
    c.Stat("shard sets opened one by one");
  };
  check("opened");
  const int rounds = (int)g.R(1, 4);
  for (int r = 0; r < rounds; r++) {
    const int n = (int)g.Pick({5, 40, 150});
    for (int i = 0; i < n; i++) {
      Op o = Op::Make(g, key, a.skip);
      if ((!a.ordered && OrderDependent(o.what)) || o.what == 23 || (o.what == 19 && !a.ordered)) continue;
      if (o.what == 18 || o.what == 19) {  // only where the position is
        auto i1 = ref->MakeIterator(), i2 = d->MakeIterator();
        std::string k1, k2, v1, v2;
        if (o.what == 18) { i1->Jump(o.k); i2->Jump(o.k); } else if (o.f) { i1->JumpLower(o.k, o.n > 0); i2->JumpLower(o.k, o.n > 0); } else { i1->JumpUpper(o.k, o.n > 0); i2->JumpUpper(o.k, o.n > 0); }
        Status x = i1->Get(&k1, &v1), y = i2->Get(&k2, &v2);
        VCHECK(c, x == y && k1 == k2 && v1 == v2, "shard-jump", "to %s: one database %s at %s, sharded %s at %s", Show(o.k).c_str(), SS(x).c_str(), Show(k1).c_str(), SS(y).c_str(), Show(k2).c_str());
        for (int j = 0; j < 6; j++) {
          const bool nx = g.P(60); x = nx ? i1->Next() : i1->Previous(); y = nx ? i2->Next() : i2->Previous();
          x = i1->Get(&k1, &v1); y = i2->Get(&k2, &v2);
          VCHECK(c, x == y && (x != Status::SUCCESS || (k1 == k2 && v1 == v2)), "shard-step", "from %s: one database %s at %s, sharded %s at %s", Show(o.k).c_str(), SS(x).c_str(), Show(k1).c_str(), SS(y).c_str(), Show(k2).c_str());
          if (x != Status::SUCCESS) break;
        }
        continue;
      }
      std::string x = o.Run(ref.get()), y = o.Run(d.get());
      c.T(Fmt("%d ", i) + Show(o.k).substr(0, 40) + " " + x.substr(0, 200));
      if (o.what == 20) { x = x.substr(0, 30); y = y.substr(0, 30); }
      VCHECK(c, x == y, "shard-result", "step %d %s: one database gives %s, ShardDBM %s", i, Show(o.k).c_str(), x.c_str(), y.c_str());
      c.Stat("operations on shards");
    }
    if (a.skip) { ref->Synchronize(false); s = d->Synchronize(false); VCHECK(c, s == Status::SUCCESS, "shard-sync", "%s", SS(s).c_str()); }
    check("after operations");
    switch (g.U(8)) {
      case 0: {  // a processor is called for the file of every shard
        if (!bound) break;
        std::vector<std::string> seen;
        class FP : public DBM::FileProcessor { public: std::vector<std::string>* seen; void Process(const std::string& q) override { seen->push_back(q); } } fp; fp.seen = &seen;
        s = d->Synchronize(false, &fp); ref->Synchronize(false);
        VCHECK(c, s == Status::SUCCESS, "shard-sync", "%s", SS(s).c_str());
        std::sort(seen.begin(), seen.end());
        VCHECK(c, (int)seen.size() == a.shards, "shard-sync-proc", "%zu calls for %d shards", seen.size(), a.shards);
        for (int i = 0; i < a.shards; i++) VCHECK(c, seen[i] == shardname(path, i), "shard-sync-path", "%s", seen[i].c_str());
        disjoint(base, "synchronized");
        c.Stat("synchronizations");
        break;
      }
      case 1: {  // a copy of all
        if (!bound) break;
        s = d->CopyFileData(c.dir + "/copy." + Exts(a.inner)[0], g.P(20)); if (a.skip) ref->Synchronize(false);
        VCHECK(c, s == Status::SUCCESS, "shard-copy", "%s", SS(s).c_str());
        files("copy." + Exts(a.inner)[0], "copied");
        ShardDBM e; s = e.OpenAdvanced(c.dir + "/copy." + Exts(a.inner)[0], g.P(50), 0, np);
        VCHECK(c, s == Status::SUCCESS, "shard-copy-open", "%s", SS(s).c_str());
        auto x = contents(ref.get()), y = contents(&e);
        VCHECK(c, x == y, "shard-copy-contents", "%zu records, %zu in the copy", x.size(), y.size());
        e.Close();
        for (auto& nm : Names(c.dir, "copy.")) RemoveFile(c.dir + "/" + nm);
        c.Stat("copies");
        break;
      }
      case 2: { s = d->Clear(); ref->Clear(); VCHECK(c, s == Status::SUCCESS, "shard-clear", "%s", SS(s).c_str()); check("cleared"); break; }
      case 3: {  // the parameters of rebuilding reach every shard
        SMap q; std::string name, val;
        if (a.inner == "HashDBM" || a.inner == "TreeDBM") { name = "num_buckets"; q["num_buckets"] = g.Pick<std::string>({"1", "5", "300"}); q["align_pow"] = val = g.Pick<std::string>({"0", "1", "4", "7"}); name = "align_pow"; }
        else if (a.skip) { name = "step_unit"; q[name] = val = g.Pick<std::string>({"2", "5", "11"}); }
        else if (a.inner == "TinyDBM") { name = "num_buckets"; q[name] = "10"; }
        s = d->RebuildAdvanced(q);
        VCHECK(c, s == Status::SUCCESS, "shard-rebuild", "%s", SS(s).c_str());
        std::map<std::string, std::string> ins; for (auto& x : d->Inspect()) ins[x.first] = x.second;
        if (!val.empty()) for (int i = 0; i < a.shards; i++) VCHECK(c, ins[Fmt("%05d-", i) + name] == val, "shard-rebuild-param", "shard %d has %s=%s after a rebuild with %s", i, name.c_str(), ins[Fmt("%05d-", i) + name].c_str(), val.c_str());
        if (a.skip) ref->Rebuild();
        check("rebuilt");
        c.Stat("rebuilds");
        break;
      }
      case 4: {  // restoring all, into other files
        if (!a.file_db) break;
        s = d->Close(); VCHECK(c, s == Status::SUCCESS, "shard-close", "%s", SS(s).c_str());
        const std::string ck = a.inner == "HashDBM" ? a.hp.cipher_key : a.inner == "TreeDBM" ? a.tp.cipher_key : "";
        const std::string rp = c.dir + "/rest." + Exts(a.inner)[0];
        const bool noext = false; (void)noext;
        if (a.fc.block <= 1) {
          s = ShardDBM::RestoreDatabase(path, rp, g.P(50) ? a.inner : "", -1, ck);
          VCHECK(c, s == Status::SUCCESS, "shard-restore", "%s", SS(s).c_str());
          ShardDBM e; s = e.OpenAdvanced(rp, g.P(50), 0, np);
          VCHECK(c, s == Status::SUCCESS, "shard-restore-open", "%s", SS(s).c_str());
          auto x = contents(ref.get()), y = contents(&e);
          VCHECK(c, x == y, "shard-restore-contents", "%zu records, %zu restored", x.size(), y.size());
          e.Close(); for (auto& nm : Names(c.dir, "rest.")) RemoveFile(c.dir + "/" + nm);
          c.Stat("restorations");
        }
        s = d->OpenAdvanced(path, true, 0, np);
        VCHECK(c, s == Status::SUCCESS, "shard-reopen", "%s", SS(s).c_str());
        break;
      }
      case 5: {  // a renamed database
        if (!bound) break;
        s = d->Close(); VCHECK(c, s == Status::SUCCESS, "shard-close", "%s", SS(s).c_str());
        const std::string np2 = c.dir + "/ren." + Exts(a.inner)[0];
        s = ShardDBM::RenameDatabase(path, np2); VCHECK(c, s == Status::SUCCESS, "shard-rename", "%s", SS(s).c_str());
        files("ren." + Exts(a.inner)[0], "renamed");
        for (auto& nm : Names(c.dir, base + "-")) VCHECK(c, nm.find(".tmp.") != std::string::npos, "shard-rename-left", "%s", nm.c_str());
        s = ShardDBM::RenameDatabase(np2, path); VCHECK(c, s == Status::SUCCESS, "shard-rename", "%s", SS(s).c_str());
        s = d->OpenAdvanced(path, true, 0, np); VCHECK(c, s == Status::SUCCESS, "shard-reopen", "%s", SS(s).c_str());
        check("renamed");
        c.Stat("renamings");
        break;
      }
      case 6: {  // exported to a database made by the object
        auto e = d->MakeDBM(); VCHECK(c, e->GetType() == typeid(ShardDBM), "shard-makedbm", "not a ShardDBM");
        SMap q = {{"dbm", a.ordered ? "baby" : "tiny"}, {"num_shards", g.Pick<std::string>({"1", "2", "5"})}};
        if (a.order != &KeyOrders()[0] && a.ordered && a.params.count("key_comparator")) q["key_comparator"] = a.params["key_comparator"];
        s = dynamic_cast<ShardDBM*>(e.get())->OpenAdvanced("", true, 0, q);
        VCHECK(c, s == Status::SUCCESS, "shard-makedbm-open", "%s", SS(s).c_str());
        s = d->Export(e.get()); VCHECK(c, s == Status::SUCCESS, "shard-export", "%s", SS(s).c_str());
        auto x = contents(ref.get()), y = contents(e.get());
        if (a.skip) { SMap m; for (auto& q : x) m[q.first] = q.second; x.assign(m.begin(), m.end()); }  // a key may have several records there
        VCHECK(c, x == y, "shard-export-contents", "%zu records, %zu exported", x.size(), y.size());
        break;
      }
      default: break;
    }
    if (bound && g.P(60)) {
      s = d->Close(); VCHECK(c, s == Status::SUCCESS, "shard-close", "%s", SS(s).c_str());
      files(base, "closed");
      if (g.P(50)) disjoint(base, "closed");
      int32_t ns = 0; s = ShardDBM::GetNumberOfShards(path, &ns);
      // files left by an interrupted operation aren't shards
      if (g.P(25)) { const std::string left = path + Fmt("-00000-of-%05d.tmp.rebuild", a.shards); WriteFile(left, "rubbish"); c.Stat("reopenings with a temporary file"); s = ShardDBM::GetNumberOfShards(path, &ns); }
      VCHECK(c, s == Status::SUCCESS && ns == a.shards, "shard-detect", "%s: %d shards found, %d made", SS(s).c_str(), ns, a.shards);
      const bool wr = g.P(70); const int opt = g.P(30) ? File::OPEN_NO_CREATE : File::OPEN_DEFAULT;
      if (g.P(40)) d = std::make_unique<ShardDBM>();
      s = d->OpenAdvanced(path, wr, opt, g.P(80) ? np : a.params);
      VCHECK(c, s == Status::SUCCESS, "shard-reopen", "%s", SS(s).c_str());
      check("reopened");
      if (!wr) {  // on-memory databases accept updates all the same
        const std::string k = key();
        if (a.file_db) s = d->Set(k, "x"); else s.Set(Status::PRECONDITION_ERROR); VCHECK(c, s == Status::PRECONDITION_ERROR, "shard-readonly", "%s", SS(s).c_str());
        s = d->Close(); VCHECK(c, s == Status::SUCCESS, "shard-close", "%s", SS(s).c_str());
        s = d->OpenAdvanced(path, true, 0, np); VCHECK(c, s == Status::SUCCESS, "shard-reopen", "%s", SS(s).c_str());
      }
      c.Stat("shard reopenings");
    }
  }
  c.nontrivial = true;
}

static void Case(Ctx& c, Rng& g, int64_t) { if (g.P(50)) PolyTwin(c, g); else Shard(c, g); }
int main(int argc, char** argv) { return Main(argc, argv, "C23", Case); }
