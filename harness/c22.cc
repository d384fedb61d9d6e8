// C22: the secondary indices are exact sorted sets of (key, value) pairs.
#include <list>
#include <thread>
#include "anydb.h"
#include "tkrzw_index.h"
using namespace vh;
using namespace tkrzw;

typedef std::pair<std::string, std::string> SP;
typedef std::function<bool(const SP&, const SP&)> PLess;

struct It {
  virtual ~It() {}
  virtual void First() = 0;
  virtual void Last() = 0;
  virtual void Jump(const std::string& k, const std::string& v, bool def) = 0;
  virtual void Next() = 0;
  virtual void Previous() = 0;
  virtual bool Get(std::string* k, std::string* v) = 0;
};
// An index seen as a set of string pairs. The typed ones get numbers through their decimal form.
struct Idx {
  virtual ~Idx() {}
  virtual bool Check(const std::string& k, const std::string& v) = 0;
  virtual std::vector<std::string> GetValues(const std::string& k, size_t max) = 0;
  virtual int Add(const std::string& k, const std::string& v) = 0;     // status code, -1: no status
  virtual int Remove(const std::string& k, const std::string& v) = 0;
  virtual size_t Count() = 0;
  virtual int Clear() = 0;
  virtual std::unique_ptr<It> Iter() = 0;
  virtual int Sync(Rng&) { return 0; }
  virtual int Rebuild(Rng&) { return 0; }
  virtual int Reopen(Rng&, bool writable) { return 0; }
  virtual bool Durable() { return false; }
  virtual bool Strict() { return true; }  // refuses writes when read-only
  virtual DBM* Internal() { return nullptr; }
  virtual void Meta(Ctx&, bool) {}
};
template <class T> static std::unique_ptr<T> Up(T* p) { return std::unique_ptr<T>(p); }
template <class I> struct SIt : It {
  std::unique_ptr<I> i;
  explicit SIt(std::unique_ptr<I>&& i) : i(std::move(i)) {}
  void First() override { i->First(); }
  void Last() override { i->Last(); }
  void Jump(const std::string& k, const std::string& v, bool def) override { if (def && v.empty()) i->Jump(k); else i->Jump(k, v); }
  void Next() override { i->Next(); }
  void Previous() override { i->Previous(); }
  bool Get(std::string* k, std::string* v) override { return i->Get(k, v); }
};
static int Code(const Status& s) { return SC(s); }

struct FileIdx : Idx {
  std::unique_ptr<FileIndex> x = std::make_unique<FileIndex>();
  std::string path;
  TreeDBM::TuningParameters tp;
  bool pass_cmp = true;
  Status Open(bool w, int opt) {
    TreeDBM::TuningParameters t = tp;
    if (!pass_cmp) t.key_comparator = nullptr;
    return x->Open(path, w, opt, t);
  }
  bool Check(const std::string& k, const std::string& v) override { return x->Check(k, v); }
  std::vector<std::string> GetValues(const std::string& k, size_t max) override { return max ? x->GetValues(k, max) : x->GetValues(k); }
  int Add(const std::string& k, const std::string& v) override { return Code(x->Add(k, v)); }
  int Remove(const std::string& k, const std::string& v) override { return Code(x->Remove(k, v)); }
  size_t Count() override { return x->Count(); }
  int Clear() override { return Code(x->Clear()); }
  std::unique_ptr<It> Iter() override { return Up(new SIt<FileIndex::Iterator>(x->MakeIterator())); }
  int Sync(Rng& r) override { return Code(x->Synchronize(r.P(10))); }
  int Rebuild(Rng& r) override {
    if (r.P(60)) return Code(x->Rebuild());
    TreeDBM::TuningParameters t;
    t.max_page_size = (int)r.Pick({60, 200, 1000});
    t.align_pow = (int)r.Pick({0, 4, 10});
    t.num_buckets = (int)r.Pick({1, 50, 2000});
    return Code(x->GetInternalDBM()->RebuildAdvanced(t));
  }
  int Reopen(Rng& r, bool w) override {
    if (r.P(80)) { int s = Code(x->Close()); if (s) return s; }
    if (r.P(50)) x = std::make_unique<FileIndex>(); else if (x->IsOpen()) { int s = Code(x->Close()); if (s) return s; }
    pass_cmp = r.P(40);
    return Code(Open(w, File::OPEN_DEFAULT));
  }
  bool Durable() override { return true; }
  DBM* Internal() override { return x->GetInternalDBM(); }
  void Meta(Ctx& c, bool w) override {
    VCHECK(c, x->IsOpen() && x->IsWritable() == w && x->GetFilePath() == path, "meta", "FileIndex: open %d writable %d path %s", x->IsOpen(), x->IsWritable(), x->GetFilePath().c_str());
  }
};
struct PolyIdx : Idx {
  std::unique_ptr<PolyIndex> x = std::make_unique<PolyIndex>();
  std::string path;
  std::map<std::string, std::string> params, reparams;
  bool durable = true, tree = false;
  bool Check(const std::string& k, const std::string& v) override { return x->Check(k, v); }
  std::vector<std::string> GetValues(const std::string& k, size_t max) override { return max ? x->GetValues(k, max) : x->GetValues(k); }
  int Add(const std::string& k, const std::string& v) override { return Code(x->Add(k, v)); }
  int Remove(const std::string& k, const std::string& v) override { return Code(x->Remove(k, v)); }
  size_t Count() override { return x->Count(); }
  int Clear() override { return Code(x->Clear()); }
  std::unique_ptr<It> Iter() override { return Up(new SIt<PolyIndex::Iterator>(x->MakeIterator())); }
  int Sync(Rng& r) override { return Code(x->Synchronize(r.P(10))); }
  int Rebuild(Rng&) override { return Code(x->Rebuild()); }
  int Reopen(Rng& r, bool w) override {
    if (r.P(80)) { int s = Code(x->Close()); if (s) return s; }
    if (r.P(50)) x = std::make_unique<PolyIndex>(); else if (x->IsOpen()) { int s = Code(x->Close()); if (s) return s; }
    return Code(x->Open(path, w, File::OPEN_DEFAULT, r.P(50) ? params : reparams));
  }
  bool Durable() override { return durable; }
  bool Strict() override { return tree; }
  DBM* Internal() override { return x->GetInternalDBM(); }
  void Meta(Ctx& c, bool w) override {
    VCHECK(c, x->IsOpen() && x->IsWritable() == w && x->GetFilePath() == path, "meta", "PolyIndex: open %d writable %d path %s", x->IsOpen(), x->IsWritable(), x->GetFilePath().c_str());
  }
};
template <class X> struct MemLike : Idx {
  std::unique_ptr<X> x;
  explicit MemLike(std::unique_ptr<X>&& x) : x(std::move(x)) {}
  bool Check(const std::string& k, const std::string& v) override { return x->Check(k, v); }
  std::vector<std::string> GetValues(const std::string& k, size_t max) override { return max ? x->GetValues(k, max) : x->GetValues(k); }
  int Add(const std::string& k, const std::string& v) override { x->Add(k, v); return -1; }
  int Remove(const std::string& k, const std::string& v) override { x->Remove(k, v); return -1; }
  size_t Count() override { return x->Count(); }
  int Clear() override { x->Clear(); return 0; }
  std::unique_ptr<It> Iter() override { return Up(new SIt<typename X::Iterator>(x->MakeIterator())); }
};
static long long N(const std::string& s) { return strtoll(s.c_str(), nullptr, 10); }
template <class X, class K, class V> struct NumIdx : Idx {
  X x;
  struct NIt : It {
    std::unique_ptr<typename X::Iterator> i;
    void First() override { i->First(); }
    void Last() override { i->Last(); }
    void Jump(const std::string& k, const std::string& v, bool) override { i->Jump((K)N(k), (V)N(v)); }
    void Next() override { i->Next(); }
    void Previous() override { i->Previous(); }
    bool Get(std::string* k, std::string* v) override {
      K a; V b;
      if (!i->Get(k ? &a : nullptr, v ? &b : nullptr)) return false;
      if (k) *k = Fmt("%lld", (long long)a);
      if (v) *v = Fmt("%lld", (long long)b);
      return true;
    }
  };
  bool Check(const std::string& k, const std::string& v) override { return x.Check((K)N(k), (V)N(v)); }
  std::vector<std::string> GetValues(const std::string& k, size_t max) override { std::vector<std::string> r; for (auto v : x.GetValues((K)N(k), max)) r.push_back(Fmt("%lld", (long long)v)); return r; }
  int Add(const std::string& k, const std::string& v) override { x.Add((K)N(k), (V)N(v)); return -1; }
  int Remove(const std::string& k, const std::string& v) override { x.Remove((K)N(k), (V)N(v)); return -1; }
  size_t Count() override { return x.Count(); }
  int Clear() override { x.Clear(); return 0; }
  std::unique_ptr<It> Iter() override { auto i = new NIt; i->i = x.MakeIterator(); return Up<It>(i); }
};

struct Made {
  std::unique_ptr<Idx> x;
  PLess less;                 // the order of iteration
  Cmp keycmp = BytesCmp;      // equality of keys
  bool num = false;           // decimal keys and values
  bool exact_iter = false;    // the iterator of std::set: its position is a record
  bool desc_order = false;    // descending: a lower bound needs an explicit value
  int order = 0;              // index of the base key order
  std::string desc;
};

static Made MakeIdx(Ctx& c, Rng& g, bool conc) {
  Made m;
  const int kind = (int)g.U(conc ? 10 : 12);
  const int oi = g.P(35) ? 0 : (int)g.U(7);
  const KeyOrder& ko = KeyOrders()[7 + oi];
  const std::string cn[] = {"PairLexicalKeyComparator", "PairLexicalCaseKeyComparator", "PairDecimalKeyComparator", "PairHexadecimalKeyComparator", "PairRealNumberKeyComparator", "PairSignedBigEndianKeyComparator", "PairFloatBigEndianKeyComparator"};
  auto use_order = [&] {
    m.order = oi;
    const Cmp kc = KeyOrders()[oi].ref;
    m.keycmp = kc;
    m.less = [kc](const SP& a, const SP& b) { const int x = kc(a.first, b.first); return x ? x < 0 : BytesCmp(a.second, b.second) < 0; };
    m.desc += " " + ko.name;
  };
  const PLess plain = [](const SP& a, const SP& b) { const int x = BytesCmp(a.first, b.first); return x ? x < 0 : BytesCmp(a.second, b.second) < 0; };
  const PLess num = [](const SP& a, const SP& b) { return std::make_pair(N(a.first), N(a.second)) < std::make_pair(N(b.first), N(b.second)); };
  if (kind <= 3) {
    auto f = new FileIdx;
    m.x.reset(f);
    f->path = c.dir + "/" + (g.P(50) ? "i.tkt" : "index");
    m.desc = "FileIndex";
    use_order();
    if (oi || g.P(30)) f->tp.key_comparator = ko.comp;
    if (g.P(70)) {
      f->tp.max_page_size = (int)g.Pick({40, 100, 300, 1000});
      f->tp.max_branches = (int)g.Pick({2, 3, 8, 64});
      f->tp.max_cached_pages = (int)g.Pick({1, 4, 64, 1000});
      f->tp.num_buckets = (int)g.Pick({1, 10, 1000});
      if (g.P(50)) f->tp.align_pow = (int)g.Pick({0, 3, 8});
      if (g.P(30)) f->tp.update_mode = HashDBM::UPDATE_APPENDING;
      if (g.P(30)) f->tp.record_crc_mode = HashDBM::RECORD_CRC_16;
      if (g.P(20)) f->tp.page_update_mode = TreeDBM::PAGE_UPDATE_WRITE;
    }
    m.desc += Fmt(" page=%d branches=%d cache=%d", (int)f->tp.max_page_size, (int)f->tp.max_branches, (int)f->tp.max_cached_pages);
    Status s = f->Open(true, g.P(50) ? File::OPEN_DEFAULT : File::OPEN_TRUNCATE);
    VCHECK(c, s == Status::SUCCESS, "open", "FileIndex: %s", SS(s).c_str());
  } else if (kind <= 6) {
    auto f = new PolyIdx;
    m.x.reset(f);
    m.desc = "PolyIndex";
    const int v = (int)g.U(4);
    if (v <= 1) {
      f->path = c.dir + "/" + (v ? "i.tkt" : "i");
      if (!v) f->params["dbm"] = g.P(50) ? "tree" : "TreeDBM";
      f->reparams = f->params;
      if (g.P(60)) { f->params["max_page_size"] = Fmt("%d", (int)g.Pick({40, 100, 300})); f->params["max_branches"] = Fmt("%d", (int)g.Pick({2, 4, 30})); f->params["max_cached_pages"] = Fmt("%d", (int)g.Pick({1, 8, 100})); }
      if (g.P(40)) f->params["num_buckets"] = Fmt("%d", (int)g.Pick({1, 100}));
      m.desc += " tree";
      f->tree = true;
    } else {
      f->path = v == 2 ? "" : c.dir + "/i.tkmb";
      f->durable = v == 3;
      m.desc += v == 2 ? " empty path" : " baby";
    }
    use_order();
    if (oi || g.P(40)) { f->params["key_comparator"] = g.P(50) ? cn[oi] : cn[oi].substr(0, cn[oi].size() - 13); if (v >= 2) f->reparams["key_comparator"] = f->params["key_comparator"]; }
    Status s = f->x->Open(f->path, true, File::OPEN_DEFAULT, f->params);
    VCHECK(c, s == Status::SUCCESS, "open", "PolyIndex: %s", SS(s).c_str());
  } else if (kind <= 8) {
    m.desc = "MemIndex";
    use_order();
    m.x.reset(new MemLike<MemIndex>(oi || g.P(50) ? std::make_unique<MemIndex>(ko.comp) : std::make_unique<MemIndex>()));
  } else {
    m.exact_iter = true;
    const int v = (int)g.U(6);
    switch (v) {
      case 0:
        m.desc = "StdIndexStr";
        m.x.reset(new MemLike<StdIndexStr>(std::make_unique<StdIndexStr>()));
        m.less = plain;
        break;
      case 1:
        m.desc = "StdIndex<string,string>";
        m.x.reset(new MemLike<StdIndex<std::string, std::string>>(std::make_unique<StdIndex<std::string, std::string>>()));
        m.less = plain;
        break;
      case 2: {
        typedef StdIndex<std::string, std::string, std::greater<SP>> X;
        m.desc = "StdIndex<string,string,greater>";
        m.x.reset(new MemLike<X>(std::make_unique<X>()));
        m.less = [plain](const SP& a, const SP& b) { return plain(b, a); };
        m.desc_order = true;
        break;
      }
      case 3: m.desc = "StdIndex<int64,int64>"; m.x.reset(new NumIdx<StdIndex<int64_t, int64_t>, int64_t, int64_t>); m.less = num; m.num = true; break;
      case 4: m.desc = "StdIndex<int8,int16>"; m.x.reset(new NumIdx<StdIndex<int8_t, int16_t>, int8_t, int16_t>); m.less = num; m.num = true; break;
      default: {
        typedef StdIndex<int32_t, int64_t, std::greater<std::pair<int32_t, int64_t>>> X;
        m.desc = "StdIndex<int32,int64,greater>";
        m.x.reset(new NumIdx<X, int32_t, int64_t>);
        m.less = [num](const SP& a, const SP& b) { return num(b, a); };
        m.num = true; m.desc_order = true;
      }
    }
  }
  return m;
}

static std::string Q(const SP& p) { return "(" + Show(p.first) + ", " + Show(p.second) + ")"; }

struct PairGen {
  std::vector<std::string> keys, vals;
  PairGen(Rng& g, const Made& m) {
    const int nk = (int)g.Pick({1, 3, 8, 40}), nv = (int)g.Pick({2, 6, 20, 60});
    const KeyOrder& o = KeyOrders()[m.order];
    for (int i = 0; i < nk; i++) keys.push_back(m.num ? Fmt("%lld", (long long)g.R(-60, 60)) : o.make ? o.make(g, std::max(2, nk)) : g.P(10) ? "" : g.P(20) ? std::string(1, (char)g.Pick({0, 1, 127, 128, 255})) : g.P(60) ? Fmt("k%d", i) : g.P(90) ? g.Bytes(g.U(6)) : g.Bytes(g.Pick({126, 127, 128, 300, 20000})));
    for (int i = 0; i < nv; i++) vals.push_back(m.num ? Fmt("%lld", (long long)g.R(-300, 300)) : g.P(10) ? "" : g.P(20) ? std::string(1, (char)g.Pick({0, 1, 127, 128, 255})) : g.P(60) ? Fmt("%c%d", g.P(50) ? 'v' : 'V', i) : g.P(90) ? g.Bytes(g.U(8)) : g.Bytes(g.Pick({126, 127, 128, 300, 16384})));
  }
  SP operator()(Rng& g) const { return {g.Pick(keys), g.Pick(vals)}; }
};

static void Exact(Ctx& c, Rng& g) {
  Made m = MakeIdx(c, g, false);
  Idx* x = m.x.get();
  Describe(c, m.desc);
  c.Sig(m.desc);
  PairGen pg(g, m);
  std::set<SP, PLess> ref(m.less);
  typedef std::set<SP, PLess>::iterator RI;
  const int nops = (int)g.Pick({60, 200, 500});
  // Values of a key in the order of the index.
  auto values = [&](const std::string& k, size_t max) {
    std::vector<std::string> r;
    for (auto& p : ref) if (m.keycmp(p.first, k) == 0 && (!max || r.size() < max)) r.push_back(p.second);
    return r;
  };
  auto join = [&](const std::vector<std::string>& v) { std::string r; for (auto& s : v) r += " " + Show(s); return r; };
  auto full = [&](const char* when) {
    VCHECK(c, x->Count() == ref.size(), std::string("count:") + m.desc.substr(0, 8), "%s: Count is %zu, %zu pairs are there (%s)", m.desc.c_str(), x->Count(), ref.size(), when);
    auto it = x->Iter();
    std::string k, v;
    size_t n = 0;
    it->First();
    for (auto& p : ref) {
      VCHECK(c, it->Get(&k, &v), "scan", "%s: iteration stops after %zu of %zu (%s)", m.desc.c_str(), n, ref.size(), when);
      VCHECK(c, k == p.first && v == p.second, "scan", "%s: record %zu is %s, want %s (%s)", m.desc.c_str(), n, Q({k, v}).c_str(), Q(p).c_str(), when);
      it->Next();
      n++;
    }
    VCHECK(c, !it->Get(&k, &v), "scan", "%s: a record %s after the last (%s)", m.desc.c_str(), Q({k, v}).c_str(), when);
    if (g.P(50) && !ref.empty()) {
      it->Last();
      n = 0;
      for (auto p = ref.rbegin(); p != ref.rend(); ++p, n++) {
        VCHECK(c, it->Get(&k, &v) && k == p->first && v == p->second, "scan-back", "%s: record %zu from the end is %s, want %s (%s)", m.desc.c_str(), n, Q({k, v}).c_str(), Q(*p).c_str(), when);
        it->Previous();
      }
      VCHECK(c, !it->Get(&k, &v), "scan-back", "%s: a record before the first (%s)", m.desc.c_str(), when);
    }
    for (auto& kk : pg.keys) {
      auto got = x->GetValues(kk, 0);
      auto want = values(kk, 0);
      VCHECK(c, got == want, "values", "%s: GetValues(%s) gives%s, want%s (%s)", m.desc.c_str(), Show(kk).c_str(), join(got).c_str(), join(want).c_str(), when);
    }
    c.Eval(n + pg.keys.size());
  };
  // One long-lived iterator of the std::set based ones: it stays on a record.
  std::unique_ptr<It> li;
  RI lp = ref.end();
  bool lvalid = false;
  if (m.exact_iter) { li = x->Iter(); lvalid = true; }
  auto liget = [&](const char* op) {
    std::string k, v;
    const bool got = li->Get(&k, &v);
    VCHECK(c, got == (lp != ref.end()), "iter", "%s: the iterator %s after %s", m.desc.c_str(), got ? "has a record" : "has no record", op);
    if (got) VCHECK(c, k == lp->first && v == lp->second, "iter", "%s: the iterator is at %s, want %s after %s", m.desc.c_str(), Q({k, v}).c_str(), Q(*lp).c_str(), op);
  };
  bool writable = true;
  for (int i = 0; i < nops; i++) {
    SP p = pg(g);
    const int w = (int)g.U(100);
    c.T(Fmt("op %d w=%d ", i, w) + Q(p));
    c.Sig((uint64_t)w);
    if (w < 40 && !writable) {
      if (x->Internal() && x->Strict() && w < 10) {
        VCHECK(c, x->Add(p.first, p.second) == Status::PRECONDITION_ERROR, "readonly", "%s: Add of a read-only index", m.desc.c_str());
        VCHECK(c, x->Remove(p.first, p.second) == Status::PRECONDITION_ERROR, "readonly", "%s: Remove of a read-only index", m.desc.c_str());
      }
    } else if (w < 28) {
      const int s = x->Add(p.first, p.second);
      VCHECK(c, s <= 0, "add", "%s: Add gives %d", m.desc.c_str(), s);
      ref.insert(p);
    } else if (w < 40) {
      auto f = ref.find(p);
      if (!ref.empty() && g.P(50)) { f = ref.lower_bound(p); if (f == ref.end()) f = ref.begin(); p = *f; }
      const int s = x->Remove(p.first, p.second);
      VCHECK(c, s < 0 || s == (f == ref.end() ? (int)Status::NOT_FOUND_ERROR : 0), "remove", "%s: Remove(%s) gives %d", m.desc.c_str(), Q(p).c_str(), s);
      if (f != ref.end()) { if (lvalid && lp == f) ++lp; ref.erase(f); }
      if (lvalid) liget("Remove");
    } else if (w < 52) {
      VCHECK(c, x->Check(p.first, p.second) == (ref.count(p) > 0), "check", "%s: Check(%s) is wrong, want %d", m.desc.c_str(), Q(p).c_str(), (int)ref.count(p));
    } else if (w < 66) {
      const size_t max = g.P(50) ? 0 : (size_t)g.R(1, 5);
      auto got = x->GetValues(p.first, max);
      auto want = values(p.first, max);
      if (want.size() > 1) c.Reach("several_values");
      if (!want.empty() && m.keycmp(p.first, "") != 0) c.nontrivial = true;
      VCHECK(c, got == want, "values", "%s: GetValues(%s, %zu) gives%s, want%s", m.desc.c_str(), Show(p.first).c_str(), max, join(got).c_str(), join(want).c_str());
    } else if (w < 86) {
      // A short walk of a new iterator
      auto it = x->Iter();
      RI r = ref.end();
      const int how = (int)g.U(6);
      if (how == 0) { it->First(); r = ref.begin(); }
      else if (how == 1) { it->Last(); r = ref.empty() ? ref.end() : std::prev(ref.end()); }
      else {
        const bool def = !m.desc_order && !m.num && g.P(40);
        if (def) p.second = "";
        it->Jump(p.first, p.second, def);
        r = ref.lower_bound(p);
      }
      for (int q = (int)g.R(1, 6); q > 0; q--) {
        std::string k, v;
        const bool got = g.P(70) ? it->Get(&k, &v) : it->Get(nullptr, &v) && it->Get(&k, nullptr);
        VCHECK(c, got == (r != ref.end()), "walk", "%s: the iterator %s", m.desc.c_str(), got ? "has a record out of range" : "has no record");
        if (!got) break;
        VCHECK(c, k == r->first && v == r->second, "walk", "%s: the iterator is at %s, want %s", m.desc.c_str(), Q({k, v}).c_str(), Q(*r).c_str());
        if (g.P(65)) { it->Next(); ++r; }
        else { it->Previous(); if (r == ref.begin()) r = ref.end(); else --r; }
      }
    } else if (w < 94) {
      if (lvalid) {
        const int how = (int)g.U(6);
        if (how == 0) { li->First(); lp = ref.begin(); }
        else if (how == 1) { li->Last(); lp = ref.empty() ? ref.end() : std::prev(ref.end()); }
        else if (how == 2) { li->Jump(p.first, p.second, false); lp = ref.lower_bound(p); }
        else if (how == 3 && lp != ref.end()) { li->Previous(); if (lp == ref.begin()) lp = ref.end(); else --lp; }
        else { li->Next(); if (lp != ref.end()) ++lp; }
        liget("moving");
      }
    } else if (w < 96) {
      if (writable) { const int s = x->Sync(g); VCHECK(c, s == 0, "sync", "%s: Synchronize gives %d", m.desc.c_str(), s); }
    } else if (w < 98) {
      if (writable) { const int s = x->Rebuild(g); VCHECK(c, s == 0, "rebuild", "%s: Rebuild gives %d", m.desc.c_str(), s); if (g.P(40)) full("rebuild"); c.Reach("rebuild"); }
    } else if (w < 99) {
      if (x->Durable()) {
        writable = writable ? g.P(70) : true;
        const int s = x->Reopen(g, writable);
        VCHECK(c, s == 0, "reopen", "%s: reopening gives %d", m.desc.c_str(), s);
        x->Meta(c, writable);
        full("reopen");
        c.Reach("reopen");
      }
    } else if (writable && g.P(30)) {
      const int s = x->Clear();
      VCHECK(c, s == 0, "clear", "%s: Clear gives %d", m.desc.c_str(), s);
      ref.clear();
      if (lvalid) { lp = ref.end(); liget("Clear"); }
    }
    VCHECK(c, !g.P(20) || x->Count() == ref.size(), "count", "%s: Count is %zu, want %zu", m.desc.c_str(), x->Count(), ref.size());
    c.Eval(1);
  }
  full("end");
  if (x->Durable()) {
    const int s = x->Reopen(g, g.P(50));
    VCHECK(c, s == 0, "reopen", "%s: reopening at the end gives %d", m.desc.c_str(), s);
    full("last reopening");
  }
  c.Max("pairs", ref.size());
  if (li && g.P(50)) { li.reset(); }
}

// Threads with pairs of their own, pairs that stay, and contended ones.
static void Conc(Ctx& c, Rng& g) {
  Made m = MakeIdx(c, g, true);
  Idx* x = m.x.get();
  const int nth = (int)g.R(2, 5), nops = (int)g.Pick({30, 100, 200});
  Describe(c, Fmt("threads=%d ops=%d ", nth, nops) + m.desc);
  c.Sig(c.desc);
  PairGen pg(g, m);
  // Values are tagged with what they are, so that a key has all kinds.
  auto tag = [&](int who, int i) { return m.num ? Fmt("%d", (who - 2) * 40 + i) : Fmt("%02d-%d", (who * 37 + i * 11) % 90, who * 1000 + i); };
  const int per = (int)g.R(3, 20);
  std::set<SP, PLess> stable(m.less), all(m.less);
  std::map<int, std::set<SP, PLess>> own;
  for (int w = 0; w < nth + 2; w++) {
    auto& s = own.emplace(w, std::set<SP, PLess>(m.less)).first->second;
    for (int i = 0; i < per; i++) {
      SP p{g.Pick(pg.keys), tag(w, i)};
      if (all.insert(p).second) s.insert(p);
    }
  }
  for (auto& p : own[nth]) { x->Add(p.first, p.second); stable.insert(p); }  // stays
  std::vector<SP> contended(own[nth + 1].begin(), own[nth + 1].end());
  struct Err { std::mutex mu; std::string key, msg; std::atomic<int> n{0}; void Add(const std::string& k, const std::string& s) { std::lock_guard<std::mutex> l(mu); if (msg.empty()) { key = k; msg = s; } n++; } } err;
  std::atomic<int64_t> scans{0}, maint{0};
  std::vector<std::set<SP, PLess>> fin(nth, std::set<SP, PLess>(m.less));
  std::vector<std::thread> th;
  for (int t = 0; t < nth; t++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, t, seed] {
      Rng r(seed);
      std::set<SP, PLess>& mine = fin[t];
      std::vector<SP> pool(own[t].begin(), own[t].end());
      int rare = 3;
      for (int i = 0; i < nops && err.n == 0; i++) {
        const int w = (int)r.U(100);
        if (w < 40 && !pool.empty()) {
          const SP& p = pool[r.U(pool.size())];
          const bool has = mine.count(p) > 0;
          if (r.P(20)) { if (x->Check(p.first, p.second) != has) err.Add("own", "Check of an own pair " + Q(p) + " is not " + Fmt("%d", has)); }
          else if (r.P(60)) { const int s = x->Add(p.first, p.second); if (s > 0) err.Add("own", Fmt("Add gives %d", s)); mine.insert(p); }
          else { const int s = x->Remove(p.first, p.second); if (s >= 0 && s != (has ? 0 : (int)Status::NOT_FOUND_ERROR)) err.Add("own", Fmt("Remove of an own pair gives %d, it was %d", s, has)); mine.erase(p); }
        } else if (w < 50 && !contended.empty()) {
          const SP& p = contended[r.U(contended.size())];
          if (r.P(50)) x->Add(p.first, p.second); else x->Remove(p.first, p.second);
        } else if (w < 75) {
          const std::string& k = pg.keys[r.U(pg.keys.size())];
          auto got = x->GetValues(k, 0);
          std::set<std::string> gs(got.begin(), got.end());
          if (gs.size() != got.size() ) err.Add("values-twice", "GetValues gives a value twice");
          for (size_t q = 1; q < got.size(); q++) if (!m.less({k, got[q - 1]}, {k, got[q]})) { err.Add("values-order", "GetValues is not in order"); break; }
          for (auto& p : stable) if (m.keycmp(p.first, k) == 0 && !gs.count(p.second)) err.Add("values-missing", "GetValues lacks the pair " + Q(p) + " that stays");
          for (auto& p : pool) if (m.keycmp(p.first, k) == 0 && mine.count(p) != gs.count(p.second)) err.Add("values-missing", Fmt("GetValues of an own pair: %d, want %d: ", (int)gs.count(p.second), (int)mine.count(p)) + Q(p));
          for (auto& v : got) if (!all.count({k, v})) err.Add("values-phantom", "GetValues gives " + Q({k, v}) + ", never added");
        } else if (w < 85) {
          auto it = x->Iter();
          std::string k, v;
          std::set<SP, PLess> seen(m.less);
          SP last;
          bool first = true;
          it->First();
          while (it->Get(&k, &v)) {
            SP p{k, v};
            if (!first && !m.less(last, p)) { err.Add("scan-order", "the scan gives " + Q(p) + " after " + Q(last)); break; }
            if (!all.count(p)) err.Add("scan-phantom", "the scan gives " + Q(p));
            seen.insert(p);
            last = p;
            first = false;
            it->Next();
            if (seen.size() > 5000) break;
          }
          // (the set based iterators step on their own when their record is removed, so that a following Next skips one)
          if (!m.exact_iter) for (auto& p : stable) if (!seen.count(p)) { err.Add("scan-missing", "the scan lacks " + Q(p)); break; }
          if (!m.exact_iter) for (auto& p : mine) if (!seen.count(p)) { err.Add("scan-missing", "the scan lacks the own " + Q(p)); break; }
          scans++;
        } else if (w < 95) {
          for (auto& p : stable) if (r.P(20) && !x->Check(p.first, p.second)) err.Add("check", "Check of a pair that stays is false");
          if (x->Count() < stable.size()) err.Add("count", "Count is less than the pairs that stay");
        } else if (rare > 0) {
          rare--;
          maint++;
          const int s = r.P(50) ? x->Sync(r) : x->Rebuild(r);
          if (s) err.Add("maint", Fmt("Synchronize or Rebuild gives %d", s));
        }
      }
    });
  }
  for (auto& t : th) t.join();
  c.Stat("scans", scans);
  c.Stat("maintenance", maint);
  if (err.n) c.Fail(err.key, m.desc + ": " + err.msg);
  std::set<SP, PLess> must(m.less), may(contended.begin(), contended.end(), m.less);
  for (auto& p : stable) must.insert(p);
  for (auto& f : fin) for (auto& p : f) must.insert(p);
  for (int round = 0; round < 2; round++) {
    auto it = x->Iter();
    std::string k, v;
    std::set<SP, PLess> seen(m.less);
    it->First();
    while (it->Get(&k, &v)) {
      VCHECK(c, seen.insert({k, v}).second, "final", "%s: %s twice", m.desc.c_str(), Q({k, v}).c_str());
      VCHECK(c, must.count({k, v}) || may.count({k, v}), "final", "%s: %s is there at the end", m.desc.c_str(), Q({k, v}).c_str());
      it->Next();
    }
    for (auto& p : must) VCHECK(c, seen.count(p), "final", "%s: %s is lost", m.desc.c_str(), Q(p).c_str());
    VCHECK(c, x->Count() == seen.size(), "final", "%s: Count is %zu, %zu records", m.desc.c_str(), x->Count(), seen.size());
    c.Eval(seen.size());
    if (!x->Durable()) break;
    it.reset();
    if (round == 0) VCHECK(c, x->Reopen(g, true) == 0, "reopen", "%s", m.desc.c_str());
  }
  c.nontrivial = true;
  c.Reach("concurrent");
}

static void Case(Ctx& c, Rng& g, int64_t) {
#if __has_feature(thread_sanitizer)
  Conc(c, g);
#else
  if (g.P(75)) Exact(c, g); else Conc(c, g);
#endif
}
int main(int argc, char** argv) { return vh::Main(argc, argv, "C22", Case); }
