// C06: iterators visit every stable record once and navigate ordered keys exactly.
#include "anydb.h"
using namespace vh;


// ---------- one thread: exact navigation ----------
struct Walker {
  // kind 0: no idea (a Get tells), 1: at key, 2: end, 3: the record at key was removed; the next one is in (key, bound]
  int kind = 0;
  std::string key, bound;
  bool bound_end = false;
  std::unique_ptr<DBM::Iterator> it;
  bool stale = false;
};

static void Navigate(Ctx& c, Rng& g) {
  AnyOpt ao;
  ao.tiny_trees = g.P(70);
  ao.small = g.P(60);
  ao.classes.push_back("SkipDBM");
  AnyDB a = AnyDB::Make(g, c.dir, ao);
  const int space = (int)g.Pick({1, 5, 20, 60, 200, 600});
  Describe(c, Fmt("navigate space=%d ", space) + a.desc);
  c.Sig(c.desc);
  auto d = a.New();
  Status s = a.Open(d.get());
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  KeyGen kg = KeyGen::Make(g, a.order, space);
  ValGen vg(g);
  Model m(a.ordered, a.order->ref);
  const auto& cmp = m.cmp;
  const int fill = (int)g.Pick({0, 30, 60, 100});
  for (auto& k : kg.pool) if (g.P(fill)) { std::string v = vg(g); s = d->Set(k, v); VCHECK(c, s == Status::SUCCESS, "set", "%s", SS(s).c_str()); m.Set(k, v); }
  const bool frozen = a.skip;
  if (frozen) { s = d->Synchronize(false); VCHECK(c, s == Status::SUCCESS, "sync", "%s", SS(s).c_str()); }
  std::vector<Walker> ws(1 + g.U(3));
  for (auto& w : ws) w.it = d->MakeIterator();
  auto succ = [&](const std::string& k) -> const std::string* { auto i = m.m.upper_bound(k); return i == m.m.end() ? nullptr : &i->first; };
  auto pred = [&](const std::string& k) -> const std::string* { auto i = m.m.lower_bound(k); if (i == m.m.begin()) return nullptr; --i; return &i->first; };
  auto place = [&](Walker& w, const std::string* k) { if (k) { w.kind = 1; w.key = *k; } else w.kind = 2; };
  auto removed = [&](const std::string& k) {  // called after the model lost k
    for (auto& w : ws) {
      if (w.kind == 1 && w.key == k) { w.kind = 3; const std::string* n = succ(k); w.bound_end = !n; w.bound = n ? *n : ""; }
      else if (w.kind == 3 && !w.bound_end && w.bound == k) { const std::string* n = succ(k); w.bound_end = !n; w.bound = n ? *n : ""; }
    }
  };
  const int nops = 150;
  for (int i = 0; i < nops; i++) {
    Walker& w = ws[g.U(ws.size())];
    const int id = (int)(&w - &ws[0]);
    int op = (int)g.U(100);
    const std::string k = g.P(70) || a.order->numeric ? kg(g) : g.Bytes(g.U(5));
    auto get = [&] {
      std::string gk, gv;
      Status st = w.it->Get(&gk, &gv);
      c.T(Fmt("it%d.Get -> %s %s", id, SS(st).c_str(), Show(gk, 12).c_str()));
      c.Sig((uint64_t)SC(st));
      if (w.kind == 2) { VCHECK(c, st == Status::NOT_FOUND_ERROR, "nav:end", "Get at the end gives %s %s", SS(st).c_str(), Show(gk).c_str()); return; }
      if (st == Status::NOT_FOUND_ERROR) {
        if (w.kind == 1) c.Fail("nav:lost", Fmt("Get gives NOT_FOUND at %s", Show(w.key).c_str()));
        if (w.kind == 3 && a.ordered && !w.bound_end) c.Fail("nav:lost", Fmt("Get gives NOT_FOUND after the removal of %s although %s exists", Show(w.key).c_str(), Show(w.bound).c_str()));
        if (a.ordered) w.kind = w.kind == 0 ? 0 : 2;
        return;
      }
      VCHECK(c, st == Status::SUCCESS, "nav:status", "Get: %s", SS(st).c_str());
      const std::string* v = m.Get(gk);
      VCHECK(c, v && m.KeyOf(gk) == gk, "nav:ghost", "Get yields %s which does not exist", Show(gk).c_str());
      VCHECK(c, *v == gv, "nav:value", "Get yields %s=%s, want %s", Show(gk).c_str(), Show(gv).c_str(), Show(*v).c_str());
      if (w.kind == 1) VCHECK(c, gk == w.key, "nav:position", "Get yields %s, want %s", Show(gk).c_str(), Show(w.key).c_str());
      if (w.kind == 3 && a.ordered) {
        VCHECK(c, cmp(gk, w.key) >= 0 && (w.bound_end || cmp(gk, w.bound) <= 0), "nav:after-removal", "Get yields %s after the removal of %s, want up to %s", Show(gk).c_str(), Show(w.key).c_str(), w.bound_end ? "the end" : Show(w.bound).c_str());
      }
      w.kind = w.stale ? 0 : 1;
      w.key = gk;
      c.Stat("gets");
    };
    auto ok = [&](const char* what, const Status& st) { VCHECK(c, st == Status::SUCCESS, "nav:status", "%s: %s", what, SS(st).c_str()); };
    // A shard iterator may miss records added after it was positioned.
    if (op < 25 || (op < 45 && a.ordered)) w.stale = false;
    if (op < 10) {
      c.T(Fmt("it%d.First", id));
      ok("First", w.it->First());
      if (a.ordered) place(w, m.m.empty() ? nullptr : &m.m.begin()->first); else w.kind = 0;
      if (!a.ordered) { get(); VCHECK(c, m.m.empty() || w.kind == 1, "nav:lost", "First then Get finds nothing"); }
      else if (m.m.empty()) w.kind = 0;  // records added later may or may not be seen
    } else if (op < 15) {
      c.T(Fmt("it%d.Last", id));
      Status st = w.it->Last();
      if (!a.ordered) { VCHECK(c, st == Status::NOT_IMPLEMENTED_ERROR, "nav:status", "Last: %s", SS(st).c_str()); w.kind = 0; continue; }
      ok("Last", st);
      if (m.m.empty()) w.kind = 0; else place(w, &std::prev(m.m.end())->first);
    } else if (op < 25) {
      c.T(Fmt("it%d.Jump(%s)", id, Show(k, 12).c_str()));
      Status st = w.it->Jump(k);
      if (!a.ordered) {
        VCHECK(c, SC(st) == (m.Get(k) ? Script::OK : Script::NF), "nav:jump", "Jump(%s): %s", Show(k).c_str(), SS(st).c_str());
        if (m.Get(k)) { w.kind = 1; w.key = k; } else w.kind = 0;
      } else {
        auto i2 = m.m.lower_bound(k);
        if (i2 != m.m.end()) { ok("Jump", st); place(w, &i2->first); }
        else { VCHECK(c, st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR, "nav:status", "Jump: %s", SS(st).c_str()); w.kind = 2; }
      }
      if (g.P(70) || w.kind == 2) get();
      if (w.kind == 2) w.kind = 0;
    } else if (op < 45 && a.ordered) {
      const bool lower = op < 35, inc = g.P(50);
      c.T(Fmt("it%d.Jump%s(%s,%d)", id, lower ? "Lower" : "Upper", Show(k, 12).c_str(), inc));
      ok("JumpLower/Upper", lower ? w.it->JumpLower(k, inc) : w.it->JumpUpper(k, inc));
      const std::string* want;
      if (lower) { want = pred(k); if (inc) { auto i2 = m.m.find(k); if (i2 != m.m.end()) want = &i2->first; } }
      else { want = succ(k); if (inc) { auto i2 = m.m.find(k); if (i2 != m.m.end()) want = &i2->first; } }
      place(w, want);
      get();
      if (w.kind == 2) w.kind = 0;
    } else if (op < 60) {
      if (w.kind == 2) { get(); continue; }
      c.T(Fmt("it%d.Next", id));
      Status st = w.it->Next();
      if (!a.ordered) { w.kind = 0; get(); continue; }
      if (w.kind == 1) {
        ok("Next", st);
        const std::string* n = succ(w.key);
        place(w, n);
        if (g.P(60) || !n) get();
        if (!n) w.kind = 0;
      } else { w.kind = 0; get(); }
    } else if (op < 70 && a.ordered) {
      if (w.kind == 2) { get(); continue; }
      c.T(Fmt("it%d.Previous", id));
      Status st = w.it->Previous();
      if (w.kind == 1) {
        ok("Previous", st);
        const std::string* n = pred(w.key);
        place(w, n);
        if (g.P(60) || !n) get();
        if (!n) w.kind = 0;
      } else { w.kind = 0; get(); }
    } else if (op < 78) {
      get();
    } else if (op < 84 && !frozen) {
      if (w.kind == 0 || w.kind == 2 || w.kind == 3) { get(); }
      if (w.kind != 1) continue;
      if (g.P(50)) {
        std::string ok2 = "*", ov = "*";
        c.T(Fmt("it%d.Remove @%s", id, Show(w.key, 12).c_str()));
        ok("Iter.Remove", w.it->Remove(&ok2, &ov));
        VCHECK(c, ok2 == w.key && ov == *m.Get(w.key), "nav:remove-old", "old record of Remove: %s", Show(ok2).c_str());
        const std::string gone = w.key;
        m.Remove(gone);
        removed(gone);
        if (a.ordered && g.P(50)) get();
      } else {
        std::string nv = vg(g);
        c.T(Fmt("it%d.Set @%s", id, Show(w.key, 12).c_str()));
        ok("Iter.Set", w.it->Set(nv));
        m.Set(w.key, nv);
        get();
      }
    } else if (op < 92 && !frozen) {
      if (m.Get(k) && g.P(50)) {
        c.T("Remove(" + Show(k, 12) + ")");
        const std::string real = m.KeyOf(k);
        ok("Remove", d->Remove(k));
        m.Remove(k);
        removed(real);
      } else if (m.Get(k) || g.P(70)) {
        if (a.order->numeric && !m.Get(k) && false) continue;
        std::string v = vg(g);
        c.T("Set(" + Show(k, 12) + ")");
        // The key bytes that stay are those of the record that exists.
        if (!m.Get(k) && a.cls == "ShardDBM") for (auto& x : ws) { x.stale = true; x.kind = 0; }
        ok("Set", d->Set(k, v));
        m.Set(k, v);
        for (auto& x : ws) if (!a.ordered && x.kind != 1) x.kind = 0;
      }
    } else if (op < 94) {
      // A whole scan, forward or backward, with edits of the record at hand or of others.
      const bool fwd = !a.ordered || g.P(60);
      const bool edits = !frozen && g.P(50);
      c.T(Fmt("it%d scan fwd=%d edits=%d", id, fwd, edits));
      ok("First/Last", fwd ? w.it->First() : w.it->Last());
      std::map<std::string, int> seen;
      std::set<std::string> touched;  // removed, or added after removal, during the scan
      Model start = m;
      std::string last;
      bool have_last = false;
      int guard = (int)m.m.size() * 3 + 50;
      while (guard-- > 0) {
        std::string gk, gv;
        Status st = w.it->Get(&gk, &gv);
        if (st == Status::NOT_FOUND_ERROR) {
          if (a.ordered) break;
          // The record at hand may have been removed: go on with Next until that fails.
          if (w.it->Next() != Status::SUCCESS) break;
          continue;
        }
        ok("scan Get", st);
        const std::string* v = m.Get(gk);
        VCHECK(c, v && *v == gv, "scan:ghost", "scan yields %s=%s which is not there", Show(gk).c_str(), Show(gv).c_str());
        VCHECK(c, ++seen[gk] == 1 || touched.count(gk), "scan:twice", "scan yields %s twice", Show(gk).c_str());
        if (a.ordered && have_last) VCHECK(c, fwd ? cmp(gk, last) > 0 : cmp(gk, last) < 0, "scan:order", "scan yields %s after %s", Show(gk).c_str(), Show(last).c_str());
        last = gk; have_last = true;
        bool moved = false;
        if (edits && g.P(30)) {
          const int e = (int)g.U(4);
          if (e == 0 && fwd) { ok("scan Remove", w.it->Remove()); m.Remove(gk); touched.insert(gk); removed(gk); moved = true; c.T("  scan: Remove @" + Show(gk, 12)); }
          else if (e == 1) { std::string nv = vg(g); c.T("  scan: Set @" + Show(gk, 12)); ok("scan Set", w.it->Set(nv)); m.Set(gk, nv); }
          else if (e == 2) { const std::string& k2 = kg(g); if (m.KeyOf(k2) != gk && m.Get(k2)) { const std::string r2 = m.KeyOf(k2); c.T("  scan: Remove " + Show(r2, 12)); ok("Remove", d->Remove(k2)); m.Remove(k2); touched.insert(r2); removed(r2); } }
          else { const std::string& k2 = kg(g); std::string v2 = vg(g); const bool had = m.Get(k2); c.T("  scan: Set " + Show(k2, 12)); ok("Set", d->Set(k2, v2)); m.Set(k2, v2); if (!had) { touched.insert(m.KeyOf(k2)); if (a.cls == "ShardDBM") for (auto& x : ws) { x.stale = true; x.kind = 0; } } }
        }
        if (!moved) { Status ns = fwd ? w.it->Next() : w.it->Previous(); ok("scan Next", ns); }
      }
      VCHECK(c, guard > 0, "scan:endless", "scan does not end");
      for (auto& kv : start.m) if (!touched.count(kv.first) && !seen.count(kv.first)) c.Fail("scan:missed", Fmt("scan missed %s (%zu seen of %zu)", Show(kv.first).c_str(), seen.size(), m.m.size()));
      w.kind = 0;
      w.stale = false;
      w.it->First();
      c.Stat("scans");
      c.case_evals++;
      if (seen.size() > 2) c.nontrivial = true;
    } else if (op < 95 && !frozen && g.P(20)) {
      c.T("Rebuild");
      std::string what;
      s = a.Rebuild(d.get(), g, &what);
      ok("Rebuild", s);
      // Iterators may be invalidated, but must stay harmless.
      for (auto& x : ws) { std::string gk, gv; Status st = x.it->Get(&gk, &gv); if (st == Status::SUCCESS) { const std::string* v = m.Get(gk); VCHECK(c, v && *v == gv, "nav:ghost", "after Rebuild: %s", Show(gk).c_str()); } x.it->Next(); x.it->Get(&gk, &gv); x.kind = 0; x.it->First(); }
    } else if (op < 96 && !frozen && g.P(10)) {
      c.T("Clear");
      ok("Clear", d->Clear());
      m.m.clear();
      for (auto& x : ws) { std::string gk; Status st = x.it->Get(&gk); VCHECK(c, st != Status::SUCCESS, "nav:ghost", "after Clear an iterator yields %s", Show(gk).c_str()); x.it->Next(); x.kind = 0; x.it->First(); }
    } else if (op < 97 && a.bound && g.P(10)) {
      c.T("Close and reopen");
      ok("Close", d->Close());
      for (auto& x : ws) { std::string gk; Status st = x.it->Get(&gk); VCHECK(c, st != Status::SUCCESS, "nav:ghost", "after Close an iterator yields %s", Show(gk).c_str()); x.it->Next(); x.it->First(); x.it->Get(&gk); x.it->Jump(k); }
      ok("Open", a.Open(d.get()));
      for (auto& x : ws) { std::string gk, gv; if (x.it->Get(&gk, &gv) == Status::SUCCESS) { const std::string* v = m.Get(gk); VCHECK(c, v && *v == gv, "nav:ghost", "after reopening: %s", Show(gk).c_str()); } x.it = d->MakeIterator(); x.kind = 0; }
    } else if (g.P(30)) {
      w.it = d->MakeIterator();
      w.kind = 0;
    }
  }
  c.Reach("nav:" + a.inner + (a.cls != a.inner ? "/" + a.cls : ""));
  if (g.P(50)) { ws.clear(); d.reset(); } else { d.reset(); ws.clear(); }  // iterators may outlive the database
}

// ---------- many threads ----------
struct Op { int64_t t0, t1; bool set; };

static void Concurrent(Ctx& c, Rng& g) {
  AnyOpt ao;
  ao.tiny_trees = g.P(80);
  ao.small = g.P(60);
  ao.orders = false;
  ao.compress = g.P(20);
  ao.classes.push_back("SkipDBM");
  AnyDB a = AnyDB::Make(g, c.dir, ao);
  if (a.skip) a.cls = a.inner;
  const int nstable = (int)g.Pick({3, 20, 60, 150}), nvol = (int)g.Pick({3, 20, 60, 150});
  const int nw = 1 + (int)g.U(3), nit = 1 + (int)g.U(3);
  const int disturb = a.skip ? 0 : (int)g.Pick({0, 0, 0, 1, 2, 3});  // 1 Synchronize, 2 Rebuild, 3 Clear by another thread
  Describe(c, Fmt("concurrent stable=%d volatile=%d writers=%d readers=%d disturb=%d ", nstable, nvol, nw, nit, disturb) + a.desc);
  c.Sig(c.desc);
  auto d = a.New();
  Status s = a.Open(d.get());
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  std::map<std::string, std::string> stable;
  std::vector<std::string> vol;
  {
    std::set<int> ids;
    while ((int)ids.size() < nstable + nvol) ids.insert((int)g.U(10 * (nstable + nvol)));
    std::vector<int> v(ids.begin(), ids.end());
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.U(i)]);
    for (int i = 0; i < nstable; i++) stable[Fmt("%06d", v[i])] = "stable" + g.Bytes(g.U(60));
    for (int i = 0; i < nvol; i++) vol.push_back(Fmt("%06d", v[nstable + i]));
  }
  for (auto& kv : stable) { s = d->Set(kv.first, kv.second); VCHECK(c, s == Status::SUCCESS, "set", "%s", SS(s).c_str()); }
  if (a.skip) { s = d->Synchronize(false); VCHECK(c, s == Status::SUCCESS, "sync", "%s", SS(s).c_str()); }
  std::vector<std::vector<Op>> logs(vol.size());   // each key has one writer
  std::atomic_bool stop(false);
  std::atomic_int errs(0);
  std::string err;
  std::mutex emu;
  auto fail = [&](const std::string& m) { std::lock_guard<std::mutex> l(emu); if (errs.fetch_add(1) == 0) err = m; };
  struct Yield { int key; int64_t ver, t0, t1; };
  std::vector<std::vector<Yield>> yields(nit);
  std::map<std::string, int> vix;
  for (size_t i = 0; i < vol.size(); i++) vix[vol[i]] = (int)i;
  std::atomic_bool disturbed(false);
  std::vector<std::thread> th;
  const int wops = (int)g.Pick({300, 1000, 3000});
  std::atomic_int writers(nw);
  for (int t = 0; t < nw; t++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, t, seed] {
      Rng r(seed);
      for (int i = 0; i < wops && errs == 0; i++) {
        const int ki = (int)r.U(vol.size());
        if (ki % nw != t) continue;
        auto& lg = logs[ki];
        Op op{NowNs(), 0, r.P(60)};
        const int64_t ver = (int64_t)lg.size();
        if (op.set) {
          std::string v = Fmt("%d:%lld:", ki, (long long)ver) + std::string(r.U(40), 'v');
          Status st = r.P(50) ? d->Set(vol[ki], v) : d->Process(vol[ki], [&](std::string_view, std::string_view) -> std::string_view { return v; }, true);
          if (st != Status::SUCCESS) fail("writer Set: " + SS(st));
        } else {
          Status st = d->Remove(vol[ki]);
          if (st != Status::SUCCESS && st != Status::NOT_FOUND_ERROR) fail("writer Remove: " + SS(st));
        }
        op.t1 = NowNs();
        lg.push_back(op);
        if (r.P(5)) std::this_thread::yield();
      }
      writers--;
    });
  }
  if (disturb) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, seed] {
      Rng r(seed);
      while (writers > 0 && errs == 0) {
        std::this_thread::sleep_for(std::chrono::microseconds(r.U(3000)));
        Status st(Status::SUCCESS);
        if (disturb == 1) st = d->Synchronize(false);
        else if (disturb == 2) { disturbed = true; st = a.Rebuild(d.get(), r); }
        else if (r.P(20)) { disturbed = true; st = d->Clear(); }
        if (st != Status::SUCCESS) fail("disturber: " + SS(st));
      }
    });
  }
  // Iterators of the std-based databases share the position of the record: Next after a removal by another thread
  // skips one record, and a rehash reorders the hash map.
  const bool stdhash = a.inner == "StdHashDBM", stdtree = a.inner == "StdTreeDBM";
  std::set<std::string> exempt;
  if (stdtree) {
    std::set<std::string> all;
    for (auto& kv : stable) all.insert(kv.first);
    for (auto& k : vol) all.insert(k);
    bool prev_vol = false;
    for (auto& k : all) {
      if (stable.count(k)) { if (prev_vol || a.cls == "ShardDBM") exempt.insert(k); prev_vol = false; }
      else prev_vol = true;
    }
  }
  for (int t = 0; t < nit; t++) {
    const uint64_t seed = g.Next();
    th.emplace_back([&, t, seed] {
      Rng r(seed);
      auto it = d->MakeIterator();
      int scans = 0;
      while ((writers > 0 || scans < 2) && errs == 0 && scans < 400) {
        scans++;
        const bool fwd = !a.ordered || r.P(60);
        const int64_t t0 = NowNs();
        Status st = fwd ? it->First() : it->Last();
        if (st != Status::SUCCESS) { fail("First: " + SS(st)); break; }
        std::set<std::string> seen;
        std::string last;
        bool have = false;
        int guard = 100000;
        while (errs == 0 && guard-- > 0) {
          std::string k, v;
          const int mode = (int)r.U(10);
          if (mode == 0) st = it->Process([&](std::string_view kk, std::string_view vv) -> std::string_view { k = std::string(kk); v = std::string(vv); return DBM::RecordProcessor::NOOP; }, r.P(50));
          else st = it->Get(&k, &v);
          if (st == Status::NOT_FOUND_ERROR) {
            if (a.ordered || it->Next() != Status::SUCCESS) break;
            continue;
          }
          if (st != Status::SUCCESS) { fail("Get: " + SS(st)); break; }
          auto sit = stable.find(k);
          if (sit != stable.end()) {
            if (sit->second != v) fail("stable record " + Show(k) + " has value " + Show(v));
            if (!seen.insert(k).second && fwd && !stdhash) fail("stable record " + Show(k) + " is yielded twice in one scan");
          } else {
            auto vi = vix.find(k);
            int ki = -1; long long ver = -1;
            if (vi == vix.end() || sscanf(v.c_str(), "%d:%lld:", &ki, &ver) != 2 || ki != vi->second) fail("yields a record that never was: " + Show(k) + "=" + Show(v));
            else yields[t].push_back({ki, ver, t0, NowNs()});
          }
          if (a.ordered && fwd && have && k <= last) fail("order: " + Show(k) + " after " + Show(last) + (fwd ? " forward" : " backward"));
          last = k; have = true;
          if (r.P(3)) std::this_thread::yield();
          st = fwd ? it->Next() : it->Previous();
          if (st != Status::SUCCESS) { if (st == Status::NOT_FOUND_ERROR) { if (!disturbed && disturb < 2 && false) fail("Next"); break; } fail("Next: " + SS(st)); break; }
        }
        if (guard <= 0) fail("scan does not end");
        // A backward scan breaks off if the record at hand and all after it are removed.
        if (disturb < 2 && errs == 0 && !stdhash && (fwd || (a.cls != "ShardDBM" && seen.count(stable.begin()->first)))) for (auto& kv : stable) if (!seen.count(kv.first) && !exempt.count(kv.first)) { fail(Fmt("a %s scan missed the stable record %s (%zu of %zu seen)", fwd ? "forward" : "backward", Show(kv.first).c_str(), seen.size(), stable.size())); break; }
        c.Stat("concurrent_scans");
      }
    });
  }
  for (auto& t : th) t.join();
  if (errs) {
    std::string k = err.find("twice") != std::string::npos ? "twice" : err.find("missed") != std::string::npos ? "missed" : err.find("order") == 0 ? "order" : err.find("never was") != std::string::npos ? "ghost" : "status";
    c.Fail("concurrent:" + k, err);
  }
  int64_t n = 0;
  for (auto& ys : yields) for (auto& y : ys) {
    auto& lg = logs[y.key];
    n++;
    if (y.ver < 0 || y.ver >= (int64_t)lg.size() || !lg[y.ver].set) c.Fail("concurrent:ghost", Fmt("version %lld of key %d was never written", (long long)y.ver, y.key));
    if (lg[y.ver].t0 > y.t1) c.Fail("concurrent:future", "a value is yielded before it was written");
    if (disturb != 3 && y.ver + 1 < (int64_t)lg.size() && lg[y.ver + 1].t1 < y.t0) c.Fail("concurrent:stale", Fmt("version %lld of key %d was replaced before the scan began", (long long)y.ver, y.key));
  }
  c.Stat("volatile_yields", n);
  c.Sig((uint64_t)n);
  if (n > 0) c.nontrivial = true;
  c.Reach("conc:" + a.inner + (a.cls != a.inner ? "/" + a.cls : ""));
}

static void Case(Ctx& c, Rng& g, int64_t n) { if (n % 3 == 0) Concurrent(c, g); else Navigate(c, g); }
int main(int argc, char** argv) { return Main(argc, argv, "C06", Case); }
