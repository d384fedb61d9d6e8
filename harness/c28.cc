// C28: LinkedHashMap, LRUCache, DoubleLRUCache, AtomicSet and the heap helpers match their models; nothing leaks or dangles.
#include <list>
#include <set>
#include "vh.h"
#include "tkrzw_containers.h"
#include "tkrzw_hash_util.h"
using namespace vh;
using namespace tkrzw;

static std::atomic<int64_t> g_live{0};
struct Obj {  // counts the live instances
  int64_t x;
  Obj(int64_t v = 0) : x(v) { g_live++; }
  Obj(const Obj& r) : x(r.x) { g_live++; }
  Obj& operator=(const Obj&) = default;
  ~Obj() { x = -7777; g_live--; }
  bool operator==(const Obj& o) const { return x == o.x; }
};

template <class K> K MakeKey(Rng& g, int range);
template <> int64_t MakeKey<int64_t>(Rng& g, int range) { return (int64_t)g.U(range) * (g.P(50) ? 1 : 1); }
template <> std::string MakeKey<std::string>(Rng& g, int range) { return Fmt("k%d", (int)g.U(range)) + std::string(g.U(2) * 20, 'x'); }
template <class K> std::string KS(const K& k) { if constexpr (std::is_same_v<K, std::string>) return k; else return Fmt("%lld", (long long)k); }

template <class K, class H>
static void MapCase(Ctx& c, Rng& g) {
  typedef LinkedHashMap<K, Obj, H> M;
  typedef std::list<std::pair<K, int64_t>> L;
  struct Both { std::unique_ptr<M> m; L l; };
  const int64_t base = g_live.load();
  {
    const int nmaps = 2, range = (int)g.Pick({2, 5, 20, 100});
    std::vector<Both> v(nmaps);
    for (auto& b : v) b.m = g.P(30) ? std::make_unique<M>() : std::make_unique<M>((size_t)g.Pick({0, 1, 1, 2, 3, 7, 50}));
    auto find = [&](Both& b, const K& k) { auto it = b.l.begin(); while (it != b.l.end() && it->first != k) ++it; return it; };
    auto move = [&](Both& b, typename L::iterator it, int mode) {
      if (mode == M::MOVE_FIRST) b.l.splice(b.l.begin(), b.l, it);
      else if (mode == M::MOVE_LAST) b.l.splice(b.l.end(), b.l, it);
    };
    auto check = [&](Both& b, const char* op) {
      VCHECK(c, b.m->size() == b.l.size() && b.m->empty() == b.l.empty(), "mismatch:size", "%s: size %zu, want %zu", op, b.m->size(), b.l.size());
      auto li = b.l.begin();
      size_t n = 0;
      for (auto it = b.m->begin(); it != b.m->end(); ++it, ++li) {
        VCHECK(c, n++ < b.l.size(), "mismatch:forward", "%s: the forward scan doesn't end", op);
        VCHECK(c, it->key == li->first && it->value.x == li->second, "mismatch:forward", "%s: forward scan yields (%s,%lld), want (%s,%lld)", op, KS(it->key).c_str(), (long long)it->value.x, KS(li->first).c_str(), (long long)li->second);
      }
      VCHECK(c, n == b.l.size(), "mismatch:forward", "%s: forward scan has %zu of %zu", op, n, b.l.size());
      auto it = b.m->end();
      auto ri = b.l.rbegin();
      for (; ri != b.l.rend(); ++ri) {
        if (g.P(50)) --it; else it--;
        VCHECK(c, it != b.m->end() && it->key == ri->first && it->value.x == ri->second, "mismatch:backward", "%s: backward scan differs at %s", op, KS(ri->first).c_str());
      }
      if (!b.l.empty()) {
        --it;
        VCHECK(c, it == b.m->end(), "mismatch:backward", "%s: backward scan doesn't end", op);
        const M& cm = *b.m;
        VCHECK(c, b.m->front().key == b.l.front().first && b.m->back().key == b.l.back().first && cm.front().value.x == b.l.front().second && cm.back().value.x == b.l.back().second, "mismatch:ends", "%s: front or back differs", op);
        auto ci = cm.begin();
        VCHECK(c, ci != cm.end() && (*ci).key == b.l.front().first, "mismatch:forward", "%s: const begin", op);
      }
      c.Stat("full_checks");
    };
    const int nops = (int)g.R(40, 250);
    size_t maxn = 0;
    for (int i = 0; i < nops; i++) {
      const int bi = (int)g.U(nmaps);
      Both& b = v[bi];
      const K k = MakeKey<K>(g, range);
      const int64_t val = (int64_t)g.U(1000000) + 1;
      const int mode = (int)g.U(3);
      auto it = find(b, k);
      const bool has = it != b.l.end();
      const int w = (int)g.U(100);
      const char* op = "";
      if (w < 30) {
        const bool ow = g.P(70);
        op = "Set";
        c.T(Fmt("%d.Set(%s,%lld,ow=%d,mode=%d)", bi, KS(k).c_str(), (long long)val, ow, mode));
        auto* r = b.m->Set(k, Obj(val), ow, (typename M::MoveMode)mode);
        if (has) { if (ow) { it->second = val; move(b, it, mode); } }
        else if (mode == M::MOVE_FIRST) b.l.emplace_front(k, val);
        else b.l.emplace_back(k, val);
        VCHECK(c, r && r->key == k && r->value.x == find(b, k)->second, "mismatch:Set", "Set returns a wrong record");
      } else if (w < 45) {
        op = "Get";
        c.T(Fmt("%d.Get(%s,mode=%d)", bi, KS(k).c_str(), mode));
        auto* r = b.m->Get(k, (typename M::MoveMode)mode);
        VCHECK(c, (r != nullptr) == has && (!has || (r->key == k && r->value.x == it->second)), "mismatch:Get", "Get(%s) found=%d, want %d", KS(k).c_str(), r != nullptr, has);
        if (has) move(b, it, mode);
      } else if (w < 50) {
        op = "GetSimple";
        const Obj r = b.m->GetSimple(k, Obj(-5), (typename M::MoveMode)mode);
        VCHECK(c, r.x == (has ? it->second : -5), "mismatch:GetSimple", "GetSimple gives %lld", (long long)r.x);
        if (has) move(b, it, mode);
      } else if (w < 62) {
        op = "Remove";
        c.T(Fmt("%d.Remove(%s)", bi, KS(k).c_str()));
        // A reference to the key inside the record is a legal argument.
        const bool by_ref = has && g.P(20);
        const bool r = g.P(50) ? b.m->Remove(by_ref ? b.m->find(k)->key : k) : b.m->erase(k) == 1;
        VCHECK(c, r == has, "mismatch:Remove", "Remove(%s) returns %d, want %d", KS(k).c_str(), r, has);
        if (has) b.l.erase(it);
      } else if (w < 80) {
        op = "Migrate";
        Both& o = v[1 - bi];
        c.T(Fmt("%d.Migrate(%s,mode=%d)", bi, KS(k).c_str(), mode));
        auto* r = b.m->Migrate(k, o.m.get(), (typename M::MoveMode)mode);
        VCHECK(c, (r != nullptr) == has, "mismatch:Migrate", "Migrate(%s) returns %d, want %d", KS(k).c_str(), r != nullptr, has);
        if (has) {
          auto oi = find(o, k);
          if (oi != o.l.end()) { oi->second = it->second; move(o, oi, mode); c.Stat("migrate_over"); }
          else if (mode == M::MOVE_FIRST) o.l.splice(o.l.begin(), b.l, it), it = b.l.end();
          else o.l.splice(o.l.end(), b.l, it), it = b.l.end();
          if (oi != o.l.end() && find(b, k) != b.l.end()) b.l.erase(find(b, k));
          VCHECK(c, r->key == k && r->value.x == find(o, k)->second, "mismatch:Migrate", "Migrate returns a wrong record");
        }
        check(o, "Migrate(dest)");
      } else if (w < 84) {
        op = "rehash";
        const size_t n = (size_t)g.Pick({1, 2, 5, 11, 64, 200});
        c.T(Fmt("%d.rehash(%zu)", bi, n));
        b.m->rehash(n);
        VCHECK(c, std::abs(b.m->load_factor() - (double)b.l.size() / n) < 1e-5, "mismatch:load_factor", "load factor %f for %zu records in %zu buckets", b.m->load_factor(), b.l.size(), n);
      } else if (w < 88) {
        op = "operator[]";
        c.T(Fmt("%d[%s]", bi, KS(k).c_str()));
        Obj& r = (*b.m)[k];
        VCHECK(c, r.x == (has ? it->second : 0), "mismatch:operator[]", "operator[] refers to %lld, want %lld", (long long)r.x, (long long)(has ? it->second : 0));
        if (!has) { b.l.emplace_back(k, 0); it = std::prev(b.l.end()); }
        if (g.P(60)) { r = Obj(val); it->second = val; }
      } else if (w < 93) {
        op = "insert";
        typename M::Record rec(k, Obj(val));
        auto r = b.m->insert(rec);
        VCHECK(c, r.second == !has && r.first->key == k && r.first->value.x == (has ? it->second : val), "mismatch:insert", "insert of %s", KS(k).c_str());
        if (!has) b.l.emplace_back(k, val);
      } else if (w < 97) {
        op = "find";
        auto r = b.m->find(k);
        const M& cm = *b.m;
        auto r2 = cm.find(k);
        VCHECK(c, (r != b.m->end()) == has && (r2 != cm.end()) == has, "mismatch:find", "find(%s)", KS(k).c_str());
        if (has) {
          auto ni = std::next(it);
          auto r3 = r; ++r3;
          VCHECK(c, r->value.x == it->second && (r3 == b.m->end()) == (ni == b.l.end()) && (ni == b.l.end() || r3->key == ni->first), "mismatch:find", "find and advance");
          if (it != b.l.begin()) { auto r4 = r2; --r4; VCHECK(c, r4->key == std::prev(it)->first, "mismatch:find", "find and go back"); }
          if (g.P(50)) { r->value = Obj(val); it->second = val; }
        }
      } else if (w < 98) {
        op = "clear";
        c.T(Fmt("%d.clear()", bi));
        b.m->clear();
        b.l.clear();
      } else {
        op = "new";
        b.m = std::make_unique<M>((size_t)g.R(1, 9));
        b.l.clear();
      }
      check(b, op);
      maxn = std::max(maxn, b.l.size());
      int64_t want = 0;
      for (auto& x : v) want += x.l.size();
      VCHECK(c, g_live.load() - base == want, "leak", "%s: %lld value objects are alive, want %lld", op, (long long)(g_live.load() - base), (long long)want);
      c.Sig((uint64_t)(w * 1000 + b.l.size()));
    }
    c.Max("map_records", maxn);
    c.Stat("map_ops", nops);
  }
  VCHECK(c, g_live.load() == base, "leak", "%lld value objects outlive the map", (long long)(g_live.load() - base));
}

// Both LRU caches against lists of identities; every object handed out is checked to be the right, live one.
template <bool DBL>
static void LruCase(Ctx& c, Rng& g) {
  typedef std::conditional_t<DBL, DoubleLRUCache<Obj>, LRUCache<Obj>> C;
  const int64_t base = g_live.load();
  {
    const size_t hotcap = (size_t)g.R(1, 8), cap = (size_t)g.R(1, 12);
    std::unique_ptr<C> lru;
    if constexpr (DBL) lru = std::make_unique<C>(hotcap, cap); else lru = std::make_unique<C>(cap);
    typedef std::list<std::pair<int64_t, int64_t>> L;
    L hot, warm;
    std::map<int64_t, std::shared_ptr<Obj>> held;
    std::vector<std::pair<int64_t, std::shared_ptr<Obj>>> taken;
    const int range = (int)g.Pick({3, 10, 40}), nops = (int)g.R(50, 400);
    auto find = [](L& l, int64_t id) { auto it = l.begin(); while (it != l.end() && it->first != id) ++it; return it; };
    int64_t evicted = 0;
    for (int i = 0; i < nops; i++) {
      const int64_t id = g.U(range), val = (int64_t)g.U(1000000) + 1;
      auto h = find(hot, id), w = find(warm, id);
      const bool inh = h != hot.end(), inw = w != warm.end();
      const int t = (int)g.U(100);
      const char* op = "";
      if (t < 35) {
        op = "Add";
        c.T(Fmt("Add(%lld,%lld)", (long long)id, (long long)val));
        auto p = lru->Add(id, new Obj(val));
        const int64_t want = inh ? h->second : inw ? w->second : val;
        VCHECK(c, p && p->x == want, "mismatch:Add", "Add(%lld) gives %lld, want %lld", (long long)id, p ? (long long)p->x : -1, (long long)want);
        if (!inh && !inw) warm.emplace_back(id, val);
      } else if (t < 70) {
        op = "Get";
        const bool promo = DBL && g.P(50);
        c.T(Fmt("Get(%lld,%d)", (long long)id, promo));
        std::shared_ptr<Obj> p;
        if constexpr (DBL) p = lru->Get(id, promo); else p = lru->Get(id);
        VCHECK(c, (p != nullptr) == (inh || inw), "mismatch:Get", "Get(%lld) found=%d, want %d", (long long)id, p != nullptr, inh || inw);
        if (p) VCHECK(c, p->x == (inh ? h : w)->second, "mismatch:Get", "Get(%lld) gives %lld", (long long)id, (long long)p->x);
        if (inh) hot.splice(hot.end(), hot, h);
        else if (promo) {
          if (hot.size() >= hotcap) warm.splice(warm.end(), hot, hot.begin());
          if (inw) hot.splice(hot.end(), warm, w);
        } else if (inw) warm.splice(warm.end(), warm, w);
        if (p && g.P(20)) held[id] = p;
      } else if (t < 80) {
        op = "Remove";
        c.T(Fmt("Remove(%lld)", (long long)id));
        lru->Remove(id);
        if (inh) hot.erase(h); else if (inw) warm.erase(w);
      } else if (t < 90) {
        op = "RemoveLRU";
        int64_t rid = -1;
        const bool want_id = g.P(80);
        auto p = lru->RemoveLRU(want_id ? &rid : nullptr);
        L& l = !warm.empty() ? warm : hot;
        VCHECK(c, (p != nullptr) == !l.empty(), "mismatch:RemoveLRU", "found=%d", p != nullptr);
        if (p) {
          VCHECK(c, (!want_id || rid == l.front().first) && p->x == l.front().second, "mismatch:RemoveLRU", "removed (%lld,%lld), want (%lld,%lld)", (long long)rid, (long long)p->x, (long long)l.front().first, (long long)l.front().second);
          const int64_t real = l.front().first;
          l.pop_front();
          evicted++;
          if (g.P(40)) taken.emplace_back(real, std::move(p));
        }
      } else if (t < 95) {
        op = "GiveBack";
        if (taken.empty()) continue;
        auto x = std::move(taken.back());
        taken.pop_back();
        if (find(hot, x.first) != hot.end()) continue;  // only a record which isn't there is given back
        const bool there = find(warm, x.first) != warm.end();
        const int64_t xv = x.second->x;
        lru->GiveBack(x.first, std::move(x.second));
        if (!there) warm.emplace_back(x.first, xv);
      } else if (t < 96) {
        op = "Clear";
        lru->Clear();
        hot.clear(); warm.clear();
      }
      VCHECK(c, lru->Size() == hot.size() + warm.size() && lru->IsEmpty() == (hot.empty() && warm.empty()) && lru->IsSaturated() == (warm.size() > cap), "mismatch:size",
             "%s: size %zu, want %zu; saturated %d", op, lru->Size(), hot.size() + warm.size(), lru->IsSaturated());
      auto it = lru->MakeIterator();
      std::multimap<int64_t, int64_t> got, want;
      std::vector<int64_t> order;
      size_t n = 0;
      while (true) {
        int64_t rid = -1;
        auto p = it.Get(&rid);
        if (!p) break;
        VCHECK(c, n++ < hot.size() + warm.size(), "mismatch:iterator", "%s: the iterator doesn't end", op);
        got.emplace(rid, p->x);
        it.Next();
      }
      for (auto& x : hot) want.insert(x);
      for (auto& x : warm) want.insert(x);
      VCHECK(c, got == want, "mismatch:iterator", "%s: the iterator visits %zu records, want %zu", op, got.size(), want.size());
      if (g.P(5)) held.clear();
      std::set<Obj*> extra;
      for (auto& x : held) extra.insert(x.second.get());
      for (auto& x : taken) extra.insert(x.second.get());
      const int64_t live = g_live.load() - base, inside = (int64_t)(hot.size() + warm.size());
      VCHECK(c, live >= inside && live <= inside + (int64_t)extra.size(), "leak", "%s: %lld objects alive, %lld in the cache and %zu held", op, (long long)live, (long long)inside, extra.size());
      for (auto* e : extra) VCHECK(c, e->x > 0, "dangling", "a held object was destroyed");
      c.Sig((uint64_t)(t * 1000 + inside));
    }
    c.Stat("lru_ops", nops);
    c.Stat("lru_removed", evicted);
  }
  VCHECK(c, g_live.load() == base, "leak", "%lld objects outlive the cache", (long long)(g_live.load() - base));
}

static void SetCase(Ctx& c, Rng& g) {
  {
    AtomicSet<int64_t> s;
    std::set<int64_t> m;
    for (int i = 0, n = (int)g.R(50, 400); i < n; i++) {
      const int64_t v = g.R(1, 30);
      switch (g.U(7)) {
        case 0: case 1: { const bool r = g.P(50) ? s.Insert(v) : s.Insert(int64_t(v)); VCHECK(c, r == m.insert(v).second, "mismatch:AtomicSet", "Insert"); break; }
        case 2: case 3: VCHECK(c, s.Remove(v) == (m.erase(v) > 0), "mismatch:AtomicSet", "Remove"); break;
        case 4: VCHECK(c, s.Check(v) == (m.count(v) > 0), "mismatch:AtomicSet", "Check"); break;
        case 5: { const int64_t r = s.Pop(); VCHECK(c, r == (m.empty() ? 0 : *m.begin()), "mismatch:AtomicSet", "Pop gives %lld", (long long)r); if (!m.empty()) m.erase(m.begin()); break; }
        default: if (g.P(5)) { s.Clear(); m.clear(); }
      }
      VCHECK(c, s.IsEmpty() == m.empty(), "mismatch:AtomicSet", "IsEmpty is %d with %zu", s.IsEmpty(), m.size());
      c.Sig((uint64_t)m.size());
    }
  }
  // Threads: every inserted value comes out exactly once.
  AtomicSet<int64_t> s;
  const int nth = 4, per = 60;
  std::vector<std::vector<int64_t>> out(nth);
  std::vector<std::thread> th;
  const uint64_t sd = g.Next();
  for (int t = 0; t < nth; t++) th.emplace_back([&, t] {
    Rng r(sd + t);
    for (int i = 0; i < per; i++) {
      s.Insert((int64_t)(t * per + i + 1));
      if (r.P(50)) { const int64_t x = s.Pop(); if (x) out[t].push_back(x); }
      if (r.P(10)) { const int64_t own = (int64_t)(t * per + i + 1); if (s.Remove(own)) out[t].push_back(own); }
      if (r.P(10)) (void)s.IsEmpty();
      if (r.P(20)) std::this_thread::yield();
    }
  });
  for (auto& t : th) t.join();
  std::multiset<int64_t> all;
  for (auto& o : out) all.insert(o.begin(), o.end());
  VCHECK(c, s.IsEmpty() == ((int)all.size() == nth * per), "mismatch:AtomicSet", "IsEmpty after the run");
  for (int64_t x; (x = s.Pop()) != 0;) all.insert(x);
  for (int64_t i = 1; i <= nth * per; i++) VCHECK(c, all.count(i) == 1, "mismatch:AtomicSet", "value %lld came out %zu times", (long long)i, all.count(i));
  c.Stat("set_values", nth * per);
}

static void HeapCase(Ctx& c, Rng& g) {
  for (int rep = 0; rep < 20; rep++) {
    const size_t cap = (size_t)g.R(1, 12), n = g.U(60);
    std::vector<std::pair<int64_t, std::string>> heap, all;
    const int range = (int)g.Pick({3, 10, 1000});
    for (size_t i = 0; i < n; i++) {
      std::pair<int64_t, std::string> x((int64_t)g.U(range), Fmt("%d", (int)g.U(range)));
      HeapByCostAdd(x.first, x.second, cap, &heap);
      all.push_back(x);
    }
    HeapByCostFinish(&heap);
    std::sort(all.begin(), all.end());
    if (all.size() > cap) all.resize(cap);
    VCHECK(c, heap == all, "mismatch:heap", "the %zu cheapest of %zu differ", cap, n);
    c.Stat("heaps");
    c.Sig((uint64_t)heap.size());
  }
}

struct BadHash { size_t operator()(const std::string& s) const { return s.empty() ? 0 : s[s.size() - 1] & 3; } };
static void Case(Ctx& c, Rng& g, int64_t) {
  const int t = (int)g.U(10);
  c.Stat("evals");
  if (t < 2) { Describe(c, "LinkedHashMap<int64>"); c.Reach("map-int"); MapCase<int64_t, std::hash<int64_t>>(c, g); }
  else if (t < 4) { Describe(c, "LinkedHashMap<string>"); c.Reach("map-string"); MapCase<std::string, std::hash<std::string>>(c, g); }
  else if (t < 5) { Describe(c, "LinkedHashMap<string,bad hash>"); c.Reach("map-collisions"); MapCase<std::string, BadHash>(c, g); }
  else if (t < 6) { Describe(c, "LRUCache"); c.Reach("lru"); LruCase<false>(c, g); }
  else if (t < 8) { Describe(c, "DoubleLRUCache"); c.Reach("double-lru"); LruCase<true>(c, g); }
  else if (t < 9) { Describe(c, "AtomicSet"); c.Reach("atomic-set"); SetCase(c, g); }
  else { Describe(c, "HeapByCost"); c.Reach("heap"); HeapCase(c, g); }
  c.Sig(g.Next());  // the inputs drawn
  c.nontrivial = true;
}
int main(int argc, char** argv) { return Main(argc, argv, "C28", Case); }
