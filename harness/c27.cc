// C27: mutual exclusion of every lock class, and no lost wake-ups in the signalling classes.
#include <shared_mutex>
#include <thread>
#include "vh.h"
#include "tkrzw_hash_util.h"
#include "tkrzw_thread_util.h"
using namespace vh;
using namespace tkrzw;

// What the holders see of each other. The plain value is only protected by the lock under test (a race for TSan).
struct Guarded {
  std::atomic<int> readers{0}, writers{0}, max_readers{0};
  int64_t a = 0, b = 0;  // equal outside of the exclusive sections
};
struct Env {
  Ctx& c;
  std::atomic<int64_t> bad{0}, excl{0}, shar{0}, tryfail{0}, upg{0}, upgfail{0}, down{0}, both{0};
  std::mutex mu;
  std::string msg;
  void Fail(const std::string& m) { std::lock_guard<std::mutex> l(mu); if (msg.empty()) msg = m; bad++; }
  explicit Env(Ctx& c) : c(c) {}
};
static void Spin(Rng& g, int pause) {
  if (pause == 0) return;
  if (pause == 1) { std::this_thread::yield(); return; }
  if (g.P(30)) std::this_thread::yield();
  if (pause > 2 && g.P(20)) std::this_thread::sleep_for(std::chrono::microseconds(1 + g.U(20)));
}
static void InExclusive(Env& e, Guarded& x, Rng& g, int pause) {
  const int w = ++x.writers;
  if (w != 1) e.Fail(Fmt("%d holders of the exclusive lock at once", w));
  if (x.readers != 0) e.Fail(Fmt("%d shared holders during the exclusive lock", x.readers.load()));
  if (x.a != x.b) e.Fail("the guarded data is torn at the beginning of an exclusive section");
  x.a++;
  Spin(g, pause);
  x.b++;
  if (x.readers != 0) e.Fail("a shared holder came in during the exclusive lock");
  --x.writers;
  e.excl++;
}
static void InShared(Env& e, Guarded& x, Rng& g, int pause) {
  const int r = ++x.readers;
  int m = x.max_readers;
  while (m < r && !x.max_readers.compare_exchange_weak(m, r)) {}
  if (x.writers != 0) e.Fail("an exclusive holder during a shared lock");
  const int64_t a = x.a;
  Spin(g, pause);
  if (x.b != a) e.Fail("the guarded data changed during a shared lock");
  if (x.writers != 0) e.Fail("an exclusive holder came in during a shared lock");
  --x.readers;
  e.shar++;
}
static void Threads(int n, Rng& g, const std::function<void(int, Rng&)>& fn) {
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for (int t = 0; t < n; t++) th.emplace_back([&, t, seed = g.Next()] { Rng r(seed); ready++; while (ready < n) std::this_thread::yield(); fn(t, r); });
  for (auto& x : th) x.join();
}
static void Report(Ctx& c, Env& e, const char* what) {
  VCHECK(c, e.bad == 0, std::string("exclusion:") + what, "%s (%lld times)", e.msg.c_str(), (long long)e.bad.load());
  c.Stat(std::string(what) + ".exclusive", e.excl); c.Stat(std::string(what) + ".shared", e.shar);
  if (e.upg) c.Stat(std::string(what) + ".upgrades", e.upg);
  if (e.upgfail) c.Stat(std::string(what) + ".refused-upgrades", e.upgfail);
  if (e.down) c.Stat(std::string(what) + ".downgrades", e.down);
  if (e.tryfail) c.Stat(std::string(what) + ".refused-tries", e.tryfail);
  c.Reach(what);
}

static void RunSpin(Ctx& c, Rng& g) {
  const int nt = (int)g.R(2, 8), n = (int)g.Pick({50, 300, 1000}), pause = (int)g.U(4);
  Describe(c, Fmt("SpinMutex threads=%d n=%d pause=%d", nt, n, pause));
  SpinMutex m;
  Guarded x;
  Env e(c);
  // Alone: a try succeeds exactly when the lock is free.
  VCHECK(c, m.try_lock(), "try", "try_lock of a free SpinMutex fails");
  std::thread([&] { if (m.try_lock()) e.Fail("try_lock of a held SpinMutex succeeds"); }).join();
  m.unlock();
  Threads(nt, g, [&](int, Rng& r) {
    for (int i = 0; i < n && e.bad == 0; i++) {
      if (r.P(40)) { if (!m.try_lock()) { e.tryfail++; continue; } } else m.lock();
      InExclusive(e, x, r, pause);
      m.unlock();
    }
  });
  Report(c, e, "SpinMutex");
  VCHECK(c, x.a == e.excl && x.b == e.excl, "count", "the guarded counter is %lld after %lld sections", (long long)x.a, (long long)e.excl.load());
  VCHECK(c, m.try_lock(), "try", "the lock is held after all threads have released it");
  m.unlock();
}
template <class M> static void RunSharedSpin(Ctx& c, Rng& g, const char* name) {
  const int nt = (int)g.R(2, 8), n = (int)g.Pick({50, 300, 1000}), pause = (int)g.U(4), wr = (int)g.Pick({5, 30, 60});
  const bool upgrades = g.P(70);
  Describe(c, Fmt("%s threads=%d n=%d pause=%d writers=%d%% upgrades=%d", name, nt, n, pause, wr, upgrades));
  Env e(c);
  Guarded x;
  M m;
  // One step at a time.
  auto other = [&](const std::function<bool()>& f) { bool r = false; std::thread([&] { r = f(); }).join(); return r; };
  auto need = [&](bool ok, const char* what) { VCHECK(c, ok, std::string("semantics:") + name, "%s: %s", name, what); };
  auto try_l = [&] { if (!m.try_lock()) return false; m.unlock(); return true; };
  auto try_s = [&] { if (!m.try_lock_shared()) return false; m.unlock_shared(); return true; };
  need(try_l() && other(try_l) && try_s() && other(try_s), "a free lock refuses a try");
  m.lock();
  need(!other(try_l) && !other(try_s), "a try succeeds while another thread has the exclusive lock");
  m.unlock();
  need(other(try_l) && other(try_s), "the lock is not free after the refused tries");
  m.lock_shared();
  need(!other(try_l), "try_lock succeeds while another thread has the shared lock");
  need(other(try_s), "a second shared lock is refused");
  need(m.try_upgrade(false), "the only shared holder cannot upgrade");
  need(!other(try_l) && !other(try_s), "a try succeeds during the upgraded lock");
  m.downgrade();
  need(!other(try_l) && other(try_s), "the lock is not shared after the downgrade");
  {
    m.lock_shared();  // two holders
    need(!m.try_upgrade(false), "an upgrade succeeds although another shared lock is held");
    m.unlock_shared();
  }
  need(m.try_upgrade(true), "the only shared holder cannot upgrade with waiting");
  m.unlock();
  need(try_l() && other(try_s), "the lock is not free at the end");
  Threads(nt, g, [&](int, Rng& r) {
    for (int i = 0; i < n && e.bad == 0; i++) {
      const int w = (int)r.U(100);
      if (w < wr) {
        if (r.P(30)) { if (!m.try_lock()) { e.tryfail++; continue; } } else m.lock();
        InExclusive(e, x, r, pause);
        if (upgrades && r.P(30)) { m.downgrade(); e.down++; InShared(e, x, r, pause); m.unlock_shared(); }
        else m.unlock();
      } else {
        if (r.P(30)) { if (!m.try_lock_shared()) { e.tryfail++; continue; } } else m.lock_shared();
        InShared(e, x, r, pause);
        if (upgrades && r.P(30)) {
          const int64_t before = x.a;
          if (m.try_upgrade(r.P(50))) {
            e.upg++;
            if (x.a != before) e.Fail("another writer came between the shared lock and its upgrade");
            InExclusive(e, x, r, pause);
            if (r.P(50)) { m.downgrade(); e.down++; InShared(e, x, r, pause); m.unlock_shared(); } else m.unlock();
            continue;
          }
          e.upgfail++;
          InShared(e, x, r, 0);
        }
        m.unlock_shared();
      }
    }
  });
  Report(c, e, name);
  VCHECK(c, x.a == e.excl && x.b == e.excl, "count", "the guarded counter is %lld after %lld exclusive sections", (long long)x.a, (long long)e.excl.load());
  if (x.max_readers > 1) c.Stat(std::string(name) + ".concurrent-readers");
  need(try_l() && try_s(), "the lock is held after all threads have released it");
  // Readers are admitted together: all hold the lock at the same time.
  std::atomic<int> in{0};
  bool together = true;
  Threads(4, g, [&](int, Rng&) {
    m.lock_shared();
    in++;
    const int64_t t0 = NowNs();
    while (in < 4) { if (NowNs() - t0 > 20000000000ll) { together = false; break; } std::this_thread::yield(); }
    m.unlock_shared();
  });
  VCHECK(c, together, "readers", "%s does not admit readers together", name);
}
template <class M> static void RunSlotted(Ctx& c, Rng& g, const char* name) {
  const int nt = (int)g.R(2, 8), n = (int)g.Pick({50, 200, 600}), pause = (int)g.U(4), ns = (int)g.Pick({1, 2, 7, 32}), all = (int)g.Pick({2, 20});
  Describe(c, Fmt("SlottedMutex<%s> threads=%d n=%d pause=%d slots=%d all=%d%%", name, nt, n, pause, ns, all));
  SlottedMutex<M> m(ns);
  VCHECK(c, m.GetNumSlots() == ns, "slots", "GetNumSlots");
  std::vector<Guarded> xs(ns);
  Env e(c);
  Threads(nt, g, [&](int, Rng& r) {
    for (int i = 0; i < n && e.bad == 0; i++) {
      const bool wr = r.P(40), scoped = r.P(50);
      const int ix = r.P(all) ? -1 : (int)r.U(ns);
      auto body = [&] {
        for (int s = ix < 0 ? 0 : ix; s <= (ix < 0 ? ns - 1 : ix); s++) if (wr) InExclusive(e, xs[s], r, pause); else InShared(e, xs[s], r, pause);
      };
      if (scoped) { ScopedSlottedLock<M> l(m, ix, wr); body(); }
      else if (ix < 0) { if (wr) m.LockAll(); else m.LockAllShared(); body(); if (wr) m.UnlockAll(); else m.UnlockAllShared(); }
      else { if (wr) m.LockOne(ix); else m.LockOneShared(ix); body(); if (wr) m.UnlockOne(ix); else m.UnlockOneShared(ix); }
    }
  });
  Report(c, e, "SlottedMutex");
  int64_t sum = 0;
  for (auto& x : xs) sum += x.a;
  VCHECK(c, sum == e.excl, "count", "counters");
}
static uint64_t Buckets(std::string_view k, uint64_t n) { return HashMurmur(k.data(), k.size(), 19780211) % n; }
template <class M> static void RunHash(Ctx& c, Rng& g, const char* name) {
  const int nt = (int)g.R(2, 8), n = (int)g.Pick({50, 200, 500}), pause = (int)g.U(4), ns = (int)g.Pick({1, 2, 7, 128}), nk = (int)g.Pick({1, 3, 20});
  const bool rehash = g.P(70);
  const int64_t nb0 = g.Pick<int64_t>({1, 3, 10, 1000});
  Describe(c, Fmt("HashMutex<%s> threads=%d n=%d pause=%d slots=%d buckets=%lld keys=%d rehash=%d", name, nt, n, pause, ns, (long long)nb0, nk, rehash));
  HashMutex<M> m(ns, nb0, Buckets);
  std::vector<std::string> keys;
  for (int i = 0; i < nk; i++) keys.push_back(Fmt("key%d", i * 17));
  std::vector<Guarded> xs(nk);
  std::atomic<int64_t> rehashes{0};
  VCHECK(c, m.GetNumSlots() == ns && m.GetNumBuckets() == nb0, "slots", "GetNumSlots or GetNumBuckets");
  Env e(c);
  Threads(nt, g, [&](int, Rng& r) {
    for (int i = 0; i < n && e.bad == 0; i++) {
      const bool wr = r.P(45), scoped = r.P(50);
      const int w = (int)r.U(100);
      const int k = (int)r.U(nk);
      auto body = [&](int k) { if (wr) InExclusive(e, xs[k], r, pause); else InShared(e, xs[k], r, pause); };
      auto check = [&](int64_t b) { if (b != m.GetBucketIndex(keys[k]) || b != (int64_t)Buckets(keys[k], m.GetNumBuckets())) e.Fail(Fmt("the bucket %lld of the lock is not that of the key while the lock is held", (long long)b)); };
      if (w < 45) {
        if (scoped) { ScopedHashLock<M> l(m, keys[k], wr); check(l.GetBucketIndex()); body(k); }
        else if (wr) { const int64_t b = m.LockOne(keys[k]); check(b); body(k); m.UnlockOne(b); }
        else { const int64_t b = m.LockOneShared(keys[k]); check(b); body(k); m.UnlockOneShared(b); }
      } else if (w < 60) {  // by the bucket
        const int64_t b = m.GetBucketIndex(keys[k]) + (r.P(5) ? 100000 : 0);
        if (scoped) { ScopedHashLock<M> l(m, b, wr); if (l.GetBucketIndex() >= 0) { if (l.GetBucketIndex() != b) e.Fail("another bucket is locked"); if (b == m.GetBucketIndex(keys[k])) body(k); e.both++; } else e.tryfail++; }
        else if (wr ? m.LockOne(b) : m.LockOneShared(b)) {
          if (b >= m.GetNumBuckets()) e.Fail("a bucket out of the range is locked");
          if (b == m.GetBucketIndex(keys[k])) body(k);
          if (wr) m.UnlockOne(b); else m.UnlockOneShared(b);
        } else e.tryfail++;
      } else if (w < 90) {  // several keys in any order, maybe the same twice
        std::vector<std::string_view> ks;
        std::vector<int> ix;
        for (int j = (int)r.U(6); j-- > 0;) { ix.push_back((int)r.U(nk)); ks.push_back(keys[ix.back()]); }
        auto in = [&](const std::vector<int64_t>& bs) {
          if (bs.size() != ks.size()) e.Fail("the number of buckets");
          for (size_t j = 0; j < bs.size() && j < ks.size(); j++) if (bs[j] != m.GetBucketIndex(ks[j])) e.Fail("a bucket of a multi-key lock is not that of its key");
          for (int k : std::set<int>(ix.begin(), ix.end())) body(k);
        };
        if (scoped) { ScopedHashLockMulti<M> l(m, ks, wr); in(l.GetBucketIndices()); }
        else if (wr) { auto b = m.LockMulti(ks); in(b); m.UnlockMulti(b); }
        else { auto b = m.LockMultiShared(ks); in(b); m.UnlockMultiShared(b); }
        e.both++;
      } else if (w < 95 || !rehash) {
        if (scoped) { ScopedHashLock<M> l(m, wr); for (int k = 0; k < nk; k++) body(k); }
        else if (wr) { m.LockAll(); for (int k = 0; k < nk; k++) body(k); m.UnlockAll(); }
        else { m.LockAllShared(); for (int k = 0; k < nk; k++) body(k); m.UnlockAllShared(); }
      } else {
        ScopedHashLock<M> l(m, true);
        m.Rehash(r.Pick<int64_t>({1, 2, 5, 100, 3000}));
        rehashes++;
      }
    }
  });
  Report(c, e, "HashMutex");
  c.Stat("rehashes", rehashes);
  c.Stat("HashMutex.multi", e.both);
  int64_t sum = 0;
  for (auto& x : xs) sum += x.a;
  VCHECK(c, sum == e.excl, "count", "counters");
}

static double Sec() { return (double)NowNs() * 1e-9; }
// A wait far longer than anything in the case: running into it is a lost wake-up.
static const double LONG_WAIT = 25;
static void RunWaitCounter(Ctx& c, Rng& g) {
  const int rounds = (int)g.Pick({20, 60});
  Describe(c, Fmt("WaitCounter rounds=%d", rounds));
  for (int i = 0; i < rounds; i++) {
    const int nd = (int)g.R(1, 4), per = (int)g.R(1, 3), nw = (int)g.R(1, 3), skew = (int)g.U(400);
    WaitCounter wc(g.P(50) ? nd * per : 0);
    if (wc.Get() == 0) { wc.Add(nd * per + 1); wc.Add(-1); }
    VCHECK(c, wc.Get() == nd * per, "wc-get", "Get %d want %d", wc.Get(), nd * per);
    VCHECK(c, !wc.Wait(0), "wc-zero", "Wait(0) is true with a positive count");
    if (i % 8 == 0) { const double t0 = Sec(); VCHECK(c, !wc.Wait(0.002), "wc-timeout", "Wait is true with a positive count"); VCHECK(c, Sec() - t0 >= 0.0015, "wc-early", "Wait(0.002) times out early"); }
    std::atomic<int> lost{0}, early{0};
    Threads(nd + nw, g, [&](int t, Rng& r) {
      for (volatile int j = 0; j < (int)(r.U(skew + 1)); j = j + 1) {}
      if (t < nd) for (int j = 0; j < per; j++) { wc.Done(); if (r.P(30)) std::this_thread::yield(); }
      else {
        const double t0 = Sec();
        const bool ok = wc.Wait(r.P(30) ? -1 : LONG_WAIT);
        if (Sec() - t0 > LONG_WAIT * 0.9) lost++;
        if (!ok) lost++;
        if (wc.Get() > 0) early++;
      }
    });
    VCHECK(c, lost == 0, "wc-lost", "%d waiters missed the end of the count", lost.load());
    VCHECK(c, early == 0, "wc-early", "Wait returned true with a positive count");
    VCHECK(c, wc.Wait(0) && wc.Wait() && wc.Get() == 0, "wc-end", "Wait after the end");
    c.Eval(Mix(nd * 1000 + per * 100 + nw * 10 + skew % 10));
  }
  c.Stat("wait-counters", rounds);
  c.Reach("WaitCounter");
}
// One interface for the three brokers.
struct Broker {
  int kind; SignalBroker a; KeySignalBroker<int> b; SlottedKeySignalBroker<int> s;
  KeySignalBroker<std::string> bs;
  explicit Broker(int kind, int slots) : kind(kind), s(slots) {}
  bool Send(int key, bool all) { return kind == 0 ? a.Send(all) : kind == 1 ? b.Send(key, all) : kind == 2 ? s.Send(key, all) : bs.Send(Fmt("k%d", key), all); }
  struct W {
    std::unique_ptr<SignalBroker::Waiter> a; std::unique_ptr<KeySignalBroker<int>::Waiter> b; std::unique_ptr<SlottedKeySignalBroker<int>::Waiter> s; std::unique_ptr<KeySignalBroker<std::string>::Waiter> bs;
    W(Broker* k, int key) {
      if (k->kind == 0) a.reset(new SignalBroker::Waiter(&k->a)); else if (k->kind == 1) b.reset(new KeySignalBroker<int>::Waiter(&k->b, key));
      else if (k->kind == 2) s.reset(new SlottedKeySignalBroker<int>::Waiter(&k->s, key)); else bs.reset(new KeySignalBroker<std::string>::Waiter(&k->bs, Fmt("k%d", key)));
    }
    bool Wait(double t) { return a ? a->Wait(t) : b ? b->Wait(t) : s ? s->Wait(t) : bs->Wait(t); }
  };
};
static void RunBroker(Ctx& c, Rng& g) {
  const int kind = (int)g.U(4), mode = (int)g.U(4), slots = (int)g.Pick({1, 2, 5});
  static const char* names[] = {"SignalBroker", "KeySignalBroker", "SlottedKeySignalBroker", "KeySignalBroker<string>"};
  Describe(c, Fmt("%s mode=%d slots=%d", names[kind], mode, slots));
  Broker br(kind, slots);
  const int keys = kind == 0 ? 1 : (int)g.R(1, 5);
  VCHECK(c, !br.Send(0, true) && !br.Send(0, false), "no-waiter", "a signal to nobody is said to be received");
  if (mode == 0) {
    // Each consumer waits until its key's resource is there; each producer provides it and sends to all.
    const int items = (int)g.Pick({20, 100}), nw = (int)g.R(1, 3);
    std::vector<std::atomic<int>> level(keys);
    std::atomic<int> lost{0}, waits{0}, received{0};
    // Producer k goes on when every consumer of the key has seen the level (so that a lost signal is not repaired by the next one).
    std::vector<std::atomic<int>> seen(keys);
    Threads(keys * (nw + 1), g, [&](int t, Rng& r) {
      const int k = t % keys;
      if (t < keys) {
        for (int i = 1; i <= items && lost == 0; i++) {
          for (volatile int j = 0; j < (int)(r.U(300)); j = j + 1) {}
          level[k] = i;
          if (br.Send(k, true)) received++;
          const double t0 = Sec();
          while (seen[k] < i * nw && lost == 0) { std::this_thread::yield(); if (Sec() - t0 > LONG_WAIT * 2) { lost++; break; } }
        }
      } else {
        for (int i = 1; i <= items && lost == 0; i++) {
          while (lost == 0) {
            Broker::W w(&br, k);
            if (level[k] >= i) break;
            if (r.P(20)) std::this_thread::yield();
            waits++;
            if (!w.Wait(r.P(50) ? LONG_WAIT : -1) && level[k] >= i) lost++;
          }
          seen[k]++;
        }
      }
    });
    VCHECK(c, lost == 0, "signal-lost", "a waiter prepared before the check missed the signal");
    c.Stat("waits", waits); c.Stat("received", received);
  } else if (mode == 1) {
    // n waiters are waiting: n single signals wake them all, each one only one of its key.
    const int n = (int)g.R(1, 5);
    std::vector<std::atomic<int>> woken(keys);
    std::atomic<int> inside{0}, timeouts{0};
    std::atomic<bool> go{true};
    Threads(keys * n + 1, g, [&](int t, Rng& r) {
      if (t > 0) {
        const int k = (t - 1) % keys;
        Broker::W w(&br, k);
        inside++;
        if (w.Wait(LONG_WAIT)) woken[k]++; else timeouts++;
        return;
      }
      while (inside < keys * n) std::this_thread::yield();
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
      std::vector<int> order;
      for (int k = 0; k < keys; k++) for (int i = 0; i < n; i++) order.push_back(k);
      for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.U(i)]);
      std::vector<int> sent(keys);
      for (int k : order) {
        const bool burst = r.P(40);
        if (!br.Send(k, false)) { go = false; break; }
        sent[k]++;
        if (burst) continue;
        const double t0 = Sec();
        while (woken[k] < sent[k] && Sec() - t0 < LONG_WAIT / 2) std::this_thread::yield();
        if (woken[k] < sent[k]) { go = false; }
        for (int j = 0; j < keys; j++) if (woken[j] > sent[j]) go = false;
        if (!go) break;
      }
      if (!go) for (int i = 0; i < 3000; i++) { for (int k = 0; k < keys; k++) br.Send(k, true); std::this_thread::sleep_for(std::chrono::microseconds(100)); }
    });
    VCHECK(c, go && timeouts == 0, "single-signal", "single signals do not wake exactly one waiter of the key each");
    for (int k = 0; k < keys; k++) VCHECK(c, woken[k] == n, "single-signal", "%d of %d waiters of a key were woken by as many single signals", woken[k].load(), n);
    VCHECK(c, !br.Send(0, false), "no-waiter", "a signal is received after all waiters have gone");
    c.Stat("single-signals", keys * n);
  } else if (mode == 2) {
    // Nothing is sent to a key: the waiters of it time out, not early, whatever is sent to the others.
    const double to = g.Pick({0.0, 0.0005, 0.003});
    std::atomic<int> bad{0}, early{0};
    std::atomic<bool> stop{false};
    Threads(3, g, [&](int t, Rng& r) {
      if (t == 0) { while (!stop) { if (kind != 0) br.Send(1000 + (int)r.U(5), r.P(50)); std::this_thread::yield(); } return; }
      for (int i = 0; i < 20; i++) {
        Broker::W w(&br, 7);
        const double t0 = Sec();
        if (w.Wait(to)) bad++;
        if (Sec() - t0 < to * 0.9) early++;
        if (kind != 0 && t == 2) { Broker::W w2(&br, 1002); w2.Wait(0.0003); }
      }
      if (t == 1) stop = true;
    });
    VCHECK(c, bad == 0, "no-signal", "%d waits are successful without a signal", bad.load());
    VCHECK(c, early == 0, "timeout-early", "%d waits timed out early", early.load());
    c.Stat("timeouts", 40);
  } else {
    // Signals and successful waits balance: every received single signal gives one successful wait.
    const int nw = (int)g.R(1, 4), n = (int)g.Pick({30, 100});
    std::vector<std::atomic<int>> sent(keys), got(keys);
    std::atomic<int> alive{keys * nw};
    std::atomic<bool> lost{false};
    Threads(keys * nw + 1, g, [&](int t, Rng& r) {
      if (t > 0) {
        const int k = (t - 1) % keys;
        for (int i = 0; i < n; i++) {
          Broker::W w(&br, k);
          const double t0 = Sec();
          while (!w.Wait(r.P(50) ? 0.0001 : 0.01)) if (Sec() - t0 > LONG_WAIT) { lost = true; break; }
          if (lost) break;
          got[k]++;
        }
        alive--;
        return;
      }
      while (alive > 0) { const int k = (int)r.U(keys); if (br.Send(k, false)) sent[k]++; if (r.P(30)) std::this_thread::yield(); }
    });
    VCHECK(c, !lost, "signal-lost", "waiters are not woken although signals are sent all the time");
    for (int k = 0; k < keys; k++) VCHECK(c, sent[k] == got[k], "balance", "%d single signals of a key were received, but %d waits were successful", sent[k].load(), got[k].load());
    c.Stat("balanced", (int64_t)n * nw * keys);
  }
  c.Eval(Mix(kind * 100 + mode * 10 + keys));
  c.Reach(Fmt("%s %d", names[kind], mode));
}
static void RunScopedCounter(Ctx& c, Rng& g) {
  std::atomic_int32_t n{0};
  const int nt = (int)g.R(2, 6);
  Describe(c, "ScopedCounter");
  std::atomic<int> bad{0};
  Threads(nt, g, [&](int, Rng& r) { for (int i = 0; i < 200; i++) { ScopedCounter<std::atomic_int32_t> s(&n, 3); const int v = n; if (v < 3 || v > 3 * nt || v % 3) bad++; if (r.P(10)) std::this_thread::yield(); } });
  VCHECK(c, bad == 0 && n == 0, "scoped-counter", "ScopedCounter");
}

static void Case(Ctx& c, Rng& g, int64_t n) {
  switch (g.U(20)) {
    case 0: case 1: RunSpin(c, g); break;
    case 2: case 3: RunSharedSpin<SpinSharedMutex>(c, g, "SpinSharedMutex"); break;
    case 4: case 5: RunSharedSpin<SpinWPSharedMutex>(c, g, "SpinWPSharedMutex"); break;
    case 6: RunSlotted<std::shared_mutex>(c, g, "std"); break;
    case 7: RunSlotted<SpinSharedMutex>(c, g, "spin"); break;
    case 8: RunSlotted<SpinWPSharedMutex>(c, g, "spinwp"); break;
    case 9: case 10: RunHash<std::shared_mutex>(c, g, "std"); break;
    case 11: RunHash<SpinSharedMutex>(c, g, "spin"); break;
    case 12: RunHash<SpinWPSharedMutex>(c, g, "spinwp"); break;
    case 13: case 14: RunWaitCounter(c, g); break;
    default: if (g.P(4)) RunScopedCounter(c, g); else RunBroker(c, g);
  }
  c.Sig(c.desc);
  c.nontrivial = true;
}
int main(int argc, char** argv) { return Main(argc, argv, "C27", Case); }
