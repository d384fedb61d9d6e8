// C16: the message queue delivers every message exactly once, in order, across files.
#include "sysfault.h"
#include "crash.h"
#include "tkrzw_message_queue.h"
using namespace vh;
using namespace tkrzw;
static std::string SS(const Status& s) { return tkrzw::ToString(s); }

struct Msg { int64_t ts; std::string data; int64_t file; };
typedef std::vector<Msg> Msgs;

static std::string MsgStr(const Msg& m) { return Fmt("%lld:%s", (long long)m.ts, Show(m.data, 20).c_str()); }
static std::string RandMsg(Rng& g) {
  switch (g.U(12)) {
    case 0: return "";
    case 1: return g.Bytes(g.U(300));
    case 2: return std::string(g.U(40), '\0');
    case 3: return g.Bytes(4060 + g.U(60));
    case 4: return g.P(20) ? g.Bytes(20000) : g.Bytes(3);
    case 5: return std::string(g.U(30), '\xFF');
    default: return g.Bytes(g.U(24));
  }
}

// Reads whatever is left without waiting; the queue isn't being written.
static Status Drain(Ctx& c, MessageQueue::Reader* r, Msgs* out, bool read_only) {
  int64_t ts = 0;
  std::string m;
  while (true) {
    Status s = r->Read(&ts, &m, 0);
    if (s != Status::SUCCESS) {
      const int want = read_only ? Status::NOT_FOUND_ERROR : Status::INFEASIBLE_ERROR;
      if ((int)s.GetCode() != want) return s;
      return Status(Status::SUCCESS);
    }
    out->push_back({ts, m, 0});
    if (out->size() > 100000) c.Fail("endless", "reading does not end");
  }
}
static Msgs From(const Msgs& v, int64_t min_ts, size_t from = 0) {
  Msgs r;
  for (size_t i = from; i < v.size(); i++) if (v[i].ts >= min_ts) r.push_back(v[i]);
  return r;
}
static std::string Diff(const Msgs& want, const Msgs& got) {
  for (size_t i = 0; i < std::max(want.size(), got.size()); i++) {
    if (i >= want.size()) return Fmt("message %zu (%s) is too many", i, MsgStr(got[i]).c_str());
    if (i >= got.size()) return Fmt("message %zu (%s) is missing", i, MsgStr(want[i]).c_str());
    if (want[i].ts != got[i].ts || want[i].data != got[i].data) return Fmt("message %zu is %s, want %s", i, MsgStr(got[i]).c_str(), MsgStr(want[i]).c_str());
  }
  return "";
}

// A queue made from an image of the files: it holds the messages (none lost, none made up), and can be continued.
static void CheckImage(Ctx& c, Rng& g, const Image& im, Msgs want, const std::optional<Msg>& inflight, const std::string& at, int options, bool may_refuse) {
  const std::string dir = c.Path("img");
  im.Put(dir);
  const std::string prefix = dir + "/mq";
  MessageQueue q;
  const int64_t max = g.Pick<int64_t>({1, 200, 3000, 1 << 30});
  Status s = q.Open(prefix, max, options);
  if (may_refuse && s == Status::BROKEN_DATA_ERROR) {
    // Refused: it can still be opened by being told to ignore the broken part.
    s = q.Open(prefix, max, options | MessageQueue::OPEN_IGNORE_BROKEN);
    c.Stat("torn_refused");
  }
  VCHECK(c, s == Status::SUCCESS, "image-open", "%s: %s", at.c_str(), SS(s).c_str());
  if (inflight) {
    Msgs x;
    auto r = q.MakeReader(0);
    s = Drain(c, r.get(), &x, false);
    VCHECK(c, s == Status::SUCCESS, "image-read", "%s: %s", at.c_str(), SS(s).c_str());
    if (x.size() == want.size() + 1) { want.push_back(*inflight); c.Stat("inflight_kept"); }
  }
  int64_t top = want.empty() ? 0 : want.back().ts;
  VCHECK(c, q.GetTimestamp() >= top, "image-time", "%s: the latest time is %lld, the last message is of %lld", at.c_str(), (long long)q.GetTimestamp(), (long long)top);
  Msgs got, all = want;
  {
    auto r = q.MakeReader(0);
    s = Drain(c, r.get(), &got, false);
    VCHECK(c, s == Status::SUCCESS, "image-read", "%s: %s", at.c_str(), SS(s).c_str());
    auto df = Diff(want, got);
    VCHECK(c, df.empty(), "image-messages", "%s: %s", at.c_str(), df.c_str());
    // Continued, perhaps with a time that lies before the last one.
    int64_t now = q.GetTimestamp();
    const int n = (int)g.U(6);
    for (int i = 0; i < n; i++) {
      const int64_t ts = g.P(60) ? g.U(std::max<int64_t>(now, 1)) : now + g.U(5);
      const std::string m = RandMsg(g);
      s = q.Write(ts, m);
      VCHECK(c, s == Status::SUCCESS, "image-write", "%s: %s", at.c_str(), SS(s).c_str());
      now = std::max(now, ts);
      all.push_back({now, m, 0});
    }
    s = Drain(c, r.get(), &got, false);
    VCHECK(c, s == Status::SUCCESS, "image-read", "%s: %s", at.c_str(), SS(s).c_str());
    df = Diff(all, got);
    VCHECK(c, df.empty(), "image-messages", "%s, continued: %s", at.c_str(), df.c_str());
  }
  s = q.Close();
  VCHECK(c, s == Status::SUCCESS, "image-close", "%s: %s", at.c_str(), SS(s).c_str());
  const bool ro = g.P(50);
  s = q.Open(prefix, max, ro ? MessageQueue::OPEN_READ_ONLY : MessageQueue::OPEN_DEFAULT);
  VCHECK(c, s == Status::SUCCESS, "image-open", "%s, again: %s", at.c_str(), SS(s).c_str());
  for (int rep = 0; rep < 2; rep++) {
    got.clear();
    const int64_t min = rep == 0 || all.empty() ? 0 : all[g.U(all.size())].ts;
    auto r = q.MakeReader(min);
    s = Drain(c, r.get(), &got, ro);
    VCHECK(c, s == Status::SUCCESS, "image-read", "%s: %s", at.c_str(), SS(s).c_str());
    auto df = Diff(From(all, min), got);
    VCHECK(c, df.empty(), "image-messages", "%s, reopened, from %lld: %s", at.c_str(), (long long)min, df.c_str());
  }
  s = q.Close();
  VCHECK(c, s == Status::SUCCESS, "image-close", "%s: %s", at.c_str(), SS(s).c_str());
}

static int64_t FileOf(const std::string& p) { return (int64_t)MessageQueue::GetFileID(p); }

// One thread: several readers and a list of messages; images of the files on the way.
static void Sequential(Ctx& c, Rng& g) {
  const std::string dir = c.Path("q"), prefix = dir + "/mq";
  mkdir(dir.c_str(), 0755);
  if (g.P(20)) { WriteAll(dir + "/mq.txt", "x"); WriteAll(dir + "/mq-2.0000000000", "y"); WriteAll(dir + "/mqa", "z"); }
  int64_t max = g.Pick<int64_t>({0, 1, 50, 200, 1000, 10000, 1 << 30});
  const bool images = g.P(60);
  const int opt0 = g.P(10) ? MessageQueue::OPEN_SYNC_HARD : 0;
  Describe(c, Fmt("sequential max=%lld images=%d opt=%d", (long long)max, images, opt0));
  c.Sig(c.desc);
  MessageQueue q;
  Msgs all;
  int64_t now = 0;
  bool bumped = false;          // by UpdateTimestamp: files may count as newer than their messages
  struct Rd { std::unique_ptr<MessageQueue::Reader> r; int64_t min; size_t next; int64_t last; };
  std::vector<Rd> rds;
  struct Pending { Image im; Msgs want; std::string at; std::optional<Msg> inflight; };
  std::vector<Pending> pend;
  Rng ig(g.Next());
  const int img_pct = (int)g.Pick({1, 3, 10});
  std::string doing = "open";
  Msgs base;                      // what is on disk for sure
  std::optional<Msg> inflight;
  if (images) g_sys_before = [&](const char* call, const char* p) {
    if (strstr(p, "/img")) return true;
    if (ig.P(img_pct) && pend.size() < 2) {
      Pending x;
      x.im = Image::Take(dir);
      x.want = base;
      x.inflight = inflight;
      x.at = Fmt("killed before %s(%s) within %s", call, strrchr(p, '/') ? strrchr(p, '/') + 1 : p, doing.c_str());
      pend.push_back(std::move(x));
    }
    return true;
  };
  struct Off { ~Off() { g_sys_before = nullptr; } } off;
  Status s = q.Open(prefix, max, opt0);
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  // The file each message goes to.
  auto list = [&] { std::vector<std::string> v; Status st = MessageQueue::FindFiles(prefix, &v); if (st != Status::SUCCESS) c.Fail("find", SS(st)); return v; };
  int64_t cur_file = FileOf(list().back()), cur_size = 32;
  auto read_some = [&](Rd& r, int n) {
    for (int i = 0; i < n; i++) {
      const Msgs rest = From(all, r.min, r.next);
      int64_t ts = -7; std::string m = "*";
      const double wait = g.P(80) ? 0 : g.P(50) || !rest.empty() ? 0.001 : 0.02;
      if (!rest.empty() && g.P(10)) {
        Status ws = r.r->Wait(wait);
        VCHECK(c, ws == Status::SUCCESS, "wait", "Wait gives %s though a message is there", SS(ws).c_str());
      }
      const int64_t t0 = NowNs();
      Status rs = r.r->Read(&ts, &m, rest.empty() ? wait : g.P(20) ? -1 : wait);
      if (rest.empty()) {
        VCHECK(c, rs == Status::INFEASIBLE_ERROR, "read", "Read gives %s (%s), nothing is left", SS(rs).c_str(), Show(m).c_str());
        VCHECK(c, ts == now, "read", "the reported time is %lld, want %lld", (long long)ts, (long long)now);
        VCHECK(c, NowNs() - t0 >= (int64_t)(wait * 0.9e9), "read", "Read doesn't wait");
        r.next = all.size();
        break;
      }
      VCHECK(c, rs == Status::SUCCESS, "read", "Read gives %s, want %s", SS(rs).c_str(), MsgStr(rest[0]).c_str());
      VCHECK(c, ts == rest[0].ts && m == rest[0].data, "read", "Read gives %lld:%s, want %s", (long long)ts, Show(m).c_str(), MsgStr(rest[0]).c_str());
      while (all[r.next].ts < r.min) r.next++;
      r.next++;
      r.last = ts;
      VCHECK(c, r.r->GetTimestamp() == ts, "reader-time", "%lld", (long long)r.r->GetTimestamp());
      c.case_evals++;
    }
  };
  auto check_images = [&] {
    std::vector<Pending> ps;
    ps.swap(pend);
    const auto keep = g_sys_before;
    g_sys_before = nullptr;
    for (auto& p : ps) {
      c.Eval(p.im.Hash());
      CheckImage(c, g, p.im, p.want, p.inflight, p.at, 0, false);
      c.Stat("images");
      // A torn last message: cut somewhere within it.
      if (!p.want.empty() && !p.inflight && g.P(30)) {
        auto it = p.im.files.end();
        for (auto f = p.im.files.begin(); f != p.im.files.end(); ++f) if (f->first.compare(0, 3, "mq.") == 0 && f->first.size() == 13) it = f;
        if (it != p.im.files.end() && it->second.first > 32 && p.want.back().file >= 0) {
          Image im = p.im;
          auto& f = im.files[it->first];
          std::string full = f.second;
          full.resize(f.first);
          const int64_t len = 12 + (int64_t)p.want.back().data.size();
          const int64_t cut = 1 + g.U(len - 1);
          int64_t end = 32;
          for (auto& m : p.want) if (m.file == p.want.back().file) end += 12 + m.data.size();
          int64_t id = atoll(it->first.c_str() + 3);
          if (id == p.want.back().file && (int64_t)full.size() >= end) {
            f = {end - cut, full.substr(0, end - cut)};
            Msgs w = p.want;
            w.pop_back();
            CheckImage(c, g, im, w, std::nullopt, p.at + Fmt(", torn by %lld of %lld bytes", (long long)cut, (long long)len), 0, true);
            c.Stat("torn_images");
          }
        }
      }
      // Preallocated room after the end.
      if (g.P(10)) {
        auto it = p.im.files.end();
        for (auto f = p.im.files.begin(); f != p.im.files.end(); ++f) if (f->first.compare(0, 3, "mq.") == 0 && f->first.size() == 13) it = f;
        if (it != p.im.files.end() && it->second.first >= 32) {
          Image im = p.im;
          im.files[it->first].first += g.Pick({1, 11, 4096, 100000});
          CheckImage(c, g, im, p.want, p.inflight, p.at + ", with room", 0, false);
        }
      }
    }
    g_sys_before = keep;
  };
  const int nops = (int)g.Pick({20, 60, max < 100 ? 60 : 150});
  for (int i = 0; i < nops; i++) {
    const int x = (int)g.U(100);
    if (x < 50) {
      const int64_t ts = g.P(70) ? now + g.Pick({0, 0, 1, 1, 5, 1000}) : g.P(50) ? std::max<int64_t>(0, now - g.U(50)) : g.P(20) ? 0 : now + 1;
      const std::string m = RandMsg(g);
      doing = "Write";
      c.T(Fmt("Write(%lld,%zu)", (long long)ts, m.size()));
      const bool rotate = cur_size >= max;
      inflight = Msg{std::max(now, ts), m, 0};
      s = q.Write(ts, m);
      inflight.reset();
      VCHECK(c, s == Status::SUCCESS, "write", "%s", SS(s).c_str());
      now = std::max(now, ts);
      if (rotate) { cur_file++; cur_size = 32; c.Stat("rotations"); }
      cur_size += 12 + m.size();
      all.push_back({now, m, cur_file});
      c.T(Fmt("-> file %lld size %lld max %lld", (long long)cur_file, (long long)cur_size, (long long)max));
      base = all;
    } else if (x < 75) {
      if (rds.empty() || (rds.size() < 4 && g.P(20))) {
        const int64_t min = g.P(40) || all.empty() ? 0 : all[g.U(all.size())].ts + g.Pick({0, 0, 1});
        rds.push_back({q.MakeReader(min), min, 0, -1});
        VCHECK(c, rds.back().r->GetTimestamp() == -1, "reader-time", "new reader");
        c.T(Fmt("MakeReader(%lld)", (long long)min));
        continue;
      }
      doing = "Read";
      c.T("Read");
      read_some(rds[g.U(rds.size())], 1 + (int)g.U(12));
    } else if (x < 80) {
      doing = "Synchronize";
      c.T("Synchronize");
      s = q.Synchronize(g.P(20));
      VCHECK(c, s == Status::SUCCESS, "sync", "%s", SS(s).c_str());
      // Other processes read up to here.
      auto fs = list();
      int64_t id, ts, sz;
      s = MessageQueue::ReadFileMetadata(fs.back(), &id, &ts, &sz);
      VCHECK(c, s == Status::SUCCESS && id == cur_file && ts == now && sz == cur_size, "metadata", "%s id %lld time %lld size %lld, want %lld %lld %lld", SS(s).c_str(), (long long)id, (long long)ts, (long long)sz, (long long)cur_file, (long long)now, (long long)cur_size);
    } else if (x < 83) {
      const int64_t ts = g.P(80) ? now + g.U(20) : g.U(now + 1);
      c.T(Fmt("UpdateTimestamp(%lld)", (long long)ts));
      s = q.UpdateTimestamp(ts);
      VCHECK(c, s == Status::SUCCESS, "update-time", "%s", SS(s).c_str());
      if (ts > now) { now = ts; bumped = true; }
      VCHECK(c, q.GetTimestamp() == now, "time", "%lld want %lld", (long long)q.GetTimestamp(), (long long)now);
    } else if (x < 88) {
      // Reopening.
      if (g.P(50)) rds.clear();
      doing = "Close";
      c.T("Reopen");
      s = q.Close();
      VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
      for (auto& r : rds) { int64_t ts; std::string m; Status rs = r.r->Read(&ts, &m, g.Pick({-1.0, 0.0, 0.5})); VCHECK(c, rs == Status::CANCELED_ERROR, "closed-read", "%s", SS(rs).c_str()); }
      rds.clear();
      if (g.P(25)) {
        doing = "Open";
        s = q.Open(prefix, max, MessageQueue::OPEN_READ_ONLY);
        VCHECK(c, s == Status::SUCCESS, "open-ro", "%s", SS(s).c_str());
        Msgs got;
        const int64_t min = g.P(50) || all.empty() ? 0 : all[g.U(all.size())].ts;
        auto r = q.MakeReader(min);
        s = Drain(c, r.get(), &got, true);
        VCHECK(c, s == Status::SUCCESS, "read-ro", "%s", SS(s).c_str());
        auto df = Diff(From(all, min), got);
        VCHECK(c, df.empty(), "read-ro", "%s", df.c_str());
        // Every file by itself.
        Msgs each;
        int64_t prev = -1;
        for (auto& p : list()) {
          PositionalParallelFile f;
          s = f.Open(p, false);
          VCHECK(c, s == Status::SUCCESS, "file", "%s", SS(s).c_str());
          int64_t o = 0, ts = 0; std::string m;
          while (o < f.GetSizeSimple() && (s = MessageQueue::ReadNextMessage(&f, &o, &ts, &m)) == Status::SUCCESS) each.push_back({ts, m, FileOf(p)});
          VCHECK(c, FileOf(p) > prev, "file", "order of files");
          prev = FileOf(p);
          f.Close();
        }
        df = Diff(all, each);
        VCHECK(c, df.empty(), "files", "%s", df.c_str());
        if (g.P(50)) for (size_t k = 0; k < all.size() && k < each.size(); k++) VCHECK(c, all[k].file == each[k].file, "rotation", "message %zu is in file %lld, want %lld", k, (long long)each[k].file, (long long)all[k].file);
        r.reset();
        s = q.Close();
        VCHECK(c, s == Status::SUCCESS, "close-ro", "%s", SS(s).c_str());
      }
      if (g.P(40)) {
        const int64_t thr = all.empty() ? 5 : all[g.U(all.size())].ts + g.Pick({0, 1});
        const bool ex = g.P(60);
        doing = "RemoveOldFiles";
        c.T(Fmt("RemoveOldFiles(%lld,%d)", (long long)thr, ex));
        const auto before = list();
        std::string metas = Fmt("max %lld", (long long)max);
        for (auto& p : before) { int64_t id, t, z; MessageQueue::ReadFileMetadata(p, &id, &t, &z); metas += Fmt(" %lld:%lld:%lld", (long long)id, (long long)t, (long long)z); }
        s = MessageQueue::RemoveOldFiles(prefix, thr, ex);
        VCHECK(c, s == Status::SUCCESS, "remove-old", "%s", SS(s).c_str());
        std::set<int64_t> left;
        for (auto& p : list()) left.insert(FileOf(p));
        std::map<int64_t, int64_t> newest;
        for (auto& m : all) newest[m.file] = std::max(newest[m.file], m.ts);
        for (auto& kv : newest) {
          if (kv.second >= thr || (ex && kv.first == FileOf(before.back()))) VCHECK(c, left.count(kv.first), "remove-old", "before %s; file %lld with a message of %lld is dropped for %lld", metas.c_str(), (long long)kv.first, (long long)kv.second, (long long)thr);
          else if (!bumped) VCHECK(c, !left.count(kv.first), "remove-old", "file %lld up to %lld is left for %lld", (long long)kv.first, (long long)kv.second, (long long)thr);
        }
        Msgs k;
        for (auto& m : all) if (left.count(m.file)) k.push_back(m);
        all.swap(k);
        base = all;
        pend.clear();
        if (left.empty()) { now = 0; all.clear(); base.clear(); }
        c.Stat("removals");
      }
      int opt = opt0;
      if (g.P(5)) { opt |= MessageQueue::OPEN_TRUNCATE; all.clear(); base.clear(); now = 0; pend.clear(); }
      if (g.P(30)) max = g.Pick<int64_t>({0, 1, 50, 200, 1000, 10000, 1 << 30});
      check_images();
      doing = "Open";
      const auto had = list();
      const int64_t had_size = had.empty() ? 0 : FileSize(had.back());
      const bool trunc = opt & MessageQueue::OPEN_TRUNCATE;
      if (trunc) pend.clear();
      const auto keep = g_sys_before;
      if (trunc) g_sys_before = nullptr;   // being dropped: not judged
      s = q.Open(prefix, max, opt);
      g_sys_before = keep;
      VCHECK(c, s == Status::SUCCESS, "reopen", "%s", SS(s).c_str());
      VCHECK(c, q.GetTimestamp() == now || had.empty() || trunc, "time", "after reopening %lld, want %lld", (long long)q.GetTimestamp(), (long long)now);
      now = q.GetTimestamp();
      cur_file = FileOf(list().back());
      cur_size = had.empty() || trunc ? 32 : had_size;
      c.Stat("reopens");
    } else if (x < 90) {
      // As it is now, with nothing synchronized.
      Image im = Image::Take(dir);
      pend.push_back({std::move(im), all, "killed at rest", std::nullopt});
      check_images();
    } else if (x < 91) {
      if (rds.empty()) continue;
      c.T("CancelReaders");
      s = q.CancelReaders();
      VCHECK(c, s == Status::SUCCESS, "cancel", "%s", SS(s).c_str());
      for (auto& r : rds) { int64_t ts; std::string m; Status rs = r.r->Read(&ts, &m, g.Pick({-1.0, 0.0, 0.5})); VCHECK(c, rs == Status::CANCELED_ERROR, "cancel", "Read gives %s", SS(rs).c_str()); }
      rds.clear();
    } else if (x < 93) {
      VCHECK(c, q.Write((1LL << 48) - 1, "x") == Status::INVALID_ARGUMENT_ERROR, "range", "an excessive time is accepted");
      VCHECK(c, q.Open(prefix, 1) == Status::PRECONDITION_ERROR, "range", "opened twice");
    } else if (!rds.empty() && x < 96) {
      rds.erase(rds.begin() + g.U(rds.size()));
    }
    if (pend.size() >= 2) check_images();
  }
  for (auto& r : rds) read_some(r, 1000000);
  rds.clear();
  s = q.Close();
  VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str());
  check_images();
  g_sys_before = nullptr;
  // An absolute time, since the wall clock is used for negative ones.
  s = q.Open(prefix, max);
  VCHECK(c, s == Status::SUCCESS, "reopen", "%s", SS(s).c_str());
  if (now < 1600000000000LL) {
    s = q.Write(-1, "wall");
    struct timespec tsp;
    clock_gettime(CLOCK_REALTIME, &tsp);
    const int64_t wall = tsp.tv_sec * 1000LL + tsp.tv_nsec / 1000000;
    VCHECK(c, s == Status::SUCCESS && q.GetTimestamp() <= wall + 2 && q.GetTimestamp() > wall - 100000, "wall", "%s %lld", SS(s).c_str(), (long long)q.GetTimestamp());
    all.push_back({q.GetTimestamp(), "wall", 0});
  }
  Msgs got;
  auto r = q.MakeReader(0);
  s = Drain(c, r.get(), &got, false);
  VCHECK(c, s == Status::SUCCESS, "read", "%s", SS(s).c_str());
  auto df = Diff(all, got);
  VCHECK(c, df.empty(), "read", "at the end: %s", df.c_str());
  for (auto& m : got) c.Sig(HashStr(m.data) ^ m.ts);
  c.Max("max_messages", all.size());
  if (all.size() > 3) c.nontrivial = true;
  q.Close();
}

// Many writers and readers.
static void Concurrent(Ctx& c, Rng& g) {
  const int nw = (int)g.R(1, 4), nr = (int)g.R(1, 4), per = (int)g.Pick({10, 50, 200});
  const int64_t max = g.Pick<int64_t>({1, 60, 500, 5000, 1 << 30});
  const int finish = (int)g.U(3);   // readers: 0 stop by themselves, 1 are cancelled, 2 the queue is closed
  const bool early = g.P(25);       // cancelled or closed while writing is going on
  Describe(c, Fmt("concurrent writers=%d readers=%d each=%d max=%lld finish=%d early=%d", nw, nr, per, (long long)max, finish, early));
  c.Sig(c.desc);
  const std::string prefix = c.Path("mq");
  MessageQueue q;
  Status s = q.Open(prefix, max);
  VCHECK(c, s == Status::SUCCESS, "open", "%s", SS(s).c_str());
  const int total = nw * per;
  std::mutex emu;
  std::string err;
  auto fail = [&](const std::string& m) { std::lock_guard<std::mutex> l(emu); if (err.empty()) err = m; };
  std::atomic<int64_t> clock{1000};
  std::atomic<int> started{0}, acked{0};
  std::atomic<bool> stop{false};
  std::vector<int> written(nw, 0);
  std::vector<Msgs> got(nr);
  std::vector<int64_t> mins(nr, 0), cancel_ns(nr, 0);
  std::vector<int> ended(nr, 0);
  std::vector<std::thread> rt, wt;
  std::vector<uint64_t> seeds;
  for (int i = 0; i < nw + nr; i++) seeds.push_back(g.Next());
  for (int i = 0; i < nr; i++) if (g.P(40)) mins[i] = 1000 + g.U(total);
  std::atomic<int64_t> stop_ns{0};
  for (int i = 0; i < nr; i++) rt.emplace_back([&, i] {
    Rng r(seeds[nw + i]);
    const int mode = (int)r.U(4);
    if (r.P(50)) usleep(r.U(3000));
    std::unique_ptr<MessageQueue::Reader> rd = q.MakeReader(mins[i]);
    started++;
    int64_t ts = 0, last = -1;
    std::string m;
    const int64_t give_up = NowNs() + 60000000000LL;
    while (true) {
      double wait = mode == 0 ? -1 : mode == 1 ? 0 : mode == 2 ? 0.002 : r.P(50) ? -1 : 0;
      if (finish == 0 && wait < 0 && mins[i] > 0) wait = 0.003;
      if (finish == 0 && mins[i] == 0 && (int)got[i].size() == total) { ended[i] = 1; break; }
      if (r.P(3)) {
        const Status ws = rd->Wait(wait);
        if (ws != Status::SUCCESS && ws != Status::INFEASIBLE_ERROR && ws != Status::CANCELED_ERROR) fail("Wait: " + SS(ws));
        if (ws == Status::SUCCESS && mins[i] == 0) wait = 0;
        else if (ws == Status::CANCELED_ERROR) { ended[i] = 2; break; }
        else if (ws == Status::INFEASIBLE_ERROR) continue;
      }
      const Status rs = rd->Read(&ts, &m, wait);
      if (rs == Status::SUCCESS) {
        if (ts < last) fail(Fmt("reader %d: the time goes back from %lld to %lld", i, (long long)last, (long long)ts));
        last = ts;
        got[i].push_back({ts, m, 0});
        continue;
      }
      if (rs == Status::INFEASIBLE_ERROR) {
        if (wait < 0) { fail("Read gives up though it is to wait without limit"); break; }
        if (finish == 0 && stop && mins[i] > 0) {
          // Everything was written before `stop` was seen: one more look.
          Status r2;
          while ((r2 = rd->Read(&ts, &m, 0)) == Status::SUCCESS) got[i].push_back({ts, m, 0});
          ended[i] = 1;
          break;
        }
        if (stop && finish == 2 && stop_ns && NowNs() - stop_ns > 5000000000LL) { fail("a reader isn't told that the queue was closed"); break; }
        if (NowNs() > give_up) { fail("a reader never ends"); break; }
        if (wait == 0) { if (r.P(50)) usleep(r.U(100)); else std::this_thread::yield(); }
        continue;
      }
      if (rs == Status::CANCELED_ERROR) {
        ended[i] = 2;
        if (finish == 0) fail("Read is cancelled by nobody");
        break;
      }
      fail("Read: " + SS(rs));
      break;
    }
    cancel_ns[i] = NowNs();
  });
  for (int i = 0; i < nw; i++) wt.emplace_back([&, i] {
    Rng r(seeds[i]);
    for (int j = 0; j < per; j++) {
      const int64_t ts = r.P(80) ? clock++ : clock.load() - (int64_t)r.U(10);
      std::string m = Fmt("%d.%d.", i, j) + std::string(r.P(90) ? r.U(40) : r.U(6000), 'a' + i);
      m += Fmt("#%llu", (unsigned long long)Mix(HashStr(m)));
      const Status ws = q.Write(ts, m);
      if (ws == Status::PRECONDITION_ERROR && early && finish == 2) break;
      if (ws != Status::SUCCESS) { fail("Write: " + SS(ws)); break; }
      written[i] = j + 1;
      acked++;
      if (r.P(3)) q.Synchronize(false);
      if (r.P(5)) usleep(r.U(300));
      if (r.P(2)) q.UpdateTimestamp(clock.load());
    }
  });
  if (early && finish) {
    while (acked < total / 2 && started < nr) usleep(100);
    usleep(g.U(2000));
    while (started < nr) usleep(50);
    usleep(200);
    stop_ns = NowNs();
    s = finish == 1 ? q.CancelReaders() : q.Close();
    if (s != Status::SUCCESS) fail("stopping: " + SS(s));
    stop = true;
    for (auto& t : wt) t.join();
  } else {
    for (auto& t : wt) t.join();
    stop = true;
    if (finish) {
      // Let the readers get everything first.
      const int64_t t0 = NowNs();
      while (started < nr) usleep(50);
      usleep(20000 + g.U(20000));
      (void)t0;
      stop_ns = NowNs();
      s = finish == 1 ? q.CancelReaders() : q.Close();
      if (s != Status::SUCCESS) fail("stopping: " + SS(s));
    }
  }
  for (auto& t : rt) t.join();
  if (!err.empty()) c.Fail("concurrent", err);
  if (finish == 1 || !finish) { s = q.Close(); VCHECK(c, s == Status::SUCCESS, "close", "%s", SS(s).c_str()); }
  // The order is the one that is stored.
  s = q.Open(prefix, max);
  VCHECK(c, s == Status::SUCCESS, "reopen", "%s", SS(s).c_str());
  Msgs all;
  {
    auto r = q.MakeReader(0);
    s = Drain(c, r.get(), &all, false);
    VCHECK(c, s == Status::SUCCESS, "read", "%s", SS(s).c_str());
  }
  std::vector<int> seq(nw, 0);
  int64_t last = 0;
  uint64_t h = 0;
  for (auto& m : all) {
    const size_t p = m.data.rfind('#');
    int w = -1, j = -1;
    VCHECK(c, p != std::string::npos && sscanf(m.data.c_str(), "%d.%d.", &w, &j) == 2 && w >= 0 && w < nw && m.data.substr(p + 1) == Fmt("%llu", (unsigned long long)Mix(HashStr(m.data.substr(0, p)))), "bytes", "a message nobody wrote: %s", Show(m.data).c_str());
    VCHECK(c, seq[w] == j, "order", "message %d of writer %d is stored where %d is due", j, w, seq[w]);
    seq[w]++;
    VCHECK(c, m.ts >= last, "time", "the stored time goes back from %lld to %lld", (long long)last, (long long)m.ts);
    last = m.ts;
    h = Mix(h ^ (w * 64 + 1));
  }
  for (int i = 0; i < nw; i++) VCHECK(c, seq[i] == written[i], "lost", "writer %d wrote %d messages, %d are stored", i, written[i], seq[i]);
  c.Sig(h);
  c.Eval(h);
  for (int i = 0; i < nr; i++) {
    const Msgs want = From(all, mins[i]);
    // A cancelled reader has a prefix.
    const bool complete = ended[i] == 1;
    Msgs w = want;
    VCHECK(c, got[i].size() <= want.size(), "twice", "reader %d got %zu messages of %zu", i, got[i].size(), want.size());
    if (!complete) w.resize(got[i].size());
    auto df = Diff(w, got[i]);
    VCHECK(c, df.empty(), "reader", "reader %d from %lld: %s", i, (long long)mins[i], df.c_str());
    if (ended[i] == 2) {
      const double late = (cancel_ns[i] - stop_ns) / 1e9;
      VCHECK(c, late < 20, "prompt", "reader %d returned %g seconds after it was cancelled", i, late);
      c.Stat("cancelled");
    }
    c.Stat("delivered", got[i].size());
  }
  c.Stat("messages", all.size());
  c.Reach(Fmt("finish:%d early:%d", finish, early));
  if (all.size() > 3) c.nontrivial = true;
  q.Close();
}

static void Case(Ctx& c, Rng& g, int64_t n) {
  if (g.P(55)) Sequential(c, g); else Concurrent(c, g);
}

int main(int argc, char** argv) { return Main(argc, argv, "C16", Case); }
