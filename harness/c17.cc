// C17: every File implementation is a faithful, thread-safe byte array.
#include "factory.h"
#include "wrapfile.h"
using namespace vh;

// What the file must hold.  Bytes whose content the interface leaves open are marked as unknown.
struct Bytes_ {
  std::string b;
  std::vector<bool> known;
  int64_t stale = 0;  // bytes physically written beyond the logical end end here
  int64_t n() const { return b.size(); }
  void Resize(int64_t size) {
    const int64_t old = n();
    b.resize(size, 0);
    known.resize(size, true);
    for (int64_t i = old; i < std::min(stale, size); i++) known[i] = false;
  }
  void Write(int64_t off, std::string_view d) {
    if (off + (int64_t)d.size() > n()) Resize(off + d.size());
    for (size_t i = 0; i < d.size(); i++) { b[off + i] = d[i]; known[off + i] = true; }
  }
  void Truncate(int64_t size) { Resize(size); }
  void Fake(int64_t size) { stale = std::max(stale, n()); if (size > n()) stale = std::max(stale, size); Resize(size); }
  // First differing offset or -1.
  int64_t Diff(int64_t off, std::string_view d) const {
    for (size_t i = 0; i < d.size(); i++) if (known[off + i] && b[off + i] != d[i]) return off + i;
    return -1;
  }
};

struct FileX {
  int kind = 0;  // as FileCfg, 5 = through PolyFile
  int64_t init = -1, block = 0;
  double inc = 2;
  int opt = 0, inner = 0;
  std::string Str() const {
    static const char* names[] = {"mmap-para", "mmap-atom", "pos-para", "pos-atom", "std", "poly"};
    return Fmt("%s%s init=%lld inc=%g block=%lld opt=%d", names[kind], kind == 5 ? Fmt("(%s)", names[inner]).c_str() : "", (long long)init, inc, (long long)block, opt);
  }
  int K() const { return kind == 5 ? inner : kind; }
  bool Pos() const { return K() == 2 || K() == 3; }
  bool Atomic() const { return K() == 1 || K() == 3 || K() == 4; }
  int64_t Unit() const {  // what SetAccessStrategy documents
    if (!Pos() || block <= 1) return 1;
    int64_t u = 1;
    while (u < std::max<int64_t>(block, 8)) u <<= 1;
    return u;
  }
  static FileX Make(Rng& g) {
    FileX x;
    x.kind = (int)g.Pick({0, 0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5});
    x.inner = (int)g.U(5);
    if (g.P(75)) { x.init = g.Pick<int64_t>({0, 1, 100, 4096, 5000, 1 << 16}); x.inc = g.Pick({0.0, 1.1, 1.5, 2.0, 2.0}); }
    if (x.Pos() && g.P(65)) {
      x.block = g.Pick<int64_t>({1, 8, 64, 512, 512, 4096, 8192});
      if (g.P(40)) x.opt |= PositionalFile::ACCESS_PADDING;
      if (g.P(55)) x.opt |= PositionalFile::ACCESS_PAGECACHE;
      if (g.P(15)) x.opt |= PositionalFile::ACCESS_SYNC;
      if (g.P(12)) { x.opt |= PositionalFile::ACCESS_DIRECT | PositionalFile::ACCESS_PADDING; x.block = std::max<int64_t>(512, x.block); if (g.P(70)) x.opt |= PositionalFile::ACCESS_PAGECACHE; }
    }
    return x;
  }
  std::unique_ptr<File> New() const {
    if (kind == 5) return std::make_unique<PolyFile>();
    std::unique_ptr<File> r;
    switch (kind) {
      case 0: r = std::make_unique<MemoryMapParallelFile>(); break;
      case 1: r = std::make_unique<MemoryMapAtomicFile>(); break;
      case 2: r = std::make_unique<PositionalParallelFile>(); break;
      case 3: r = std::make_unique<PositionalAtomicFile>(); break;
      default: r = std::make_unique<StdFile>(); break;
    }
    if (auto* p = dynamic_cast<PositionalFile*>(r.get()); p && block > 0) p->SetAccessStrategy(block, opt);
    if (init >= 0) r->SetAllocationStrategy(init, inc);
    return r;
  }
  Status Open(File* f, const std::string& path, bool writable, int32_t options) const {
    if (kind != 5) return f->Open(path, writable, options);
    static const char* cls[] = {"MemoryMapParallelFile", "MemoryMapAtomicFile", "PositionalParallelFile", "PositionalAtomicFile", "StdFile"};
    std::map<std::string, std::string> p = {{"file", cls[inner]}};
    if (init >= 0) { p["alloc_init_size"] = Fmt("%lld", (long long)init); p["alloc_inc_factor"] = Fmt("%g", inc); }
    if (block > 0) {
      p["block_size"] = Fmt("%lld", (long long)block);
      std::string o;
      if (opt & PositionalFile::ACCESS_DIRECT) o += "direct:";
      if (opt & PositionalFile::ACCESS_SYNC) o += "sync:";
      if (opt & PositionalFile::ACCESS_PADDING) o += "padding:";
      if (opt & PositionalFile::ACCESS_PAGECACHE) o += "pagecache:";
      if (!o.empty()) { o.pop_back(); p["access_options"] = o; }
    }
    return static_cast<PolyFile*>(f)->OpenAdvanced(path, writable, options, p);
  }
};

static std::string Str(const Status& s) { return std::string(s); }

static std::string Data(Rng& g, size_t n) {
  std::string s(n, 0);
  uint64_t x = g.Next();
  for (auto& c : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char)((x >> 56) | 1); }
  return s;
}
static int64_t Len(Rng& g) {
  const int t = (int)g.U(20);
  return t < 8 ? g.U(20) : t < 13 ? g.U(600) : t < 17 ? g.U(5000) : t < 18 ? g.Pick<int64_t>({512, 4096, 8192, 64}) : g.U(20000);
}
static int64_t Off(Rng& g, int64_t n, int64_t unit) {
  const int t = (int)g.U(10);
  if (t < 5) return g.U(n + 1);
  if (t < 6) return n;
  if (t < 7) { const int64_t u = g.Pick<int64_t>({unit, 512, 4096}); return u * g.U(n / u + 2); }
  if (t < 9) return g.U(std::min<int64_t>(n, 600) + 1);
  return n + Len(g);
}

// One thread against the byte array.
static void Single(Ctx& c, Rng& g) {
  const FileX x = FileX::Make(g);
  const int nops = (int)g.R(20, c.thorough ? 300 : 120);
  Describe(c, Fmt("single %s ops=%d", x.Str().c_str(), nops));
  c.Reach("file:" + Fmt("%d opt=%d unit=%lld", x.kind, x.opt, (long long)x.Unit()));
  const bool padding = x.Pos() && (x.opt & PositionalFile::ACCESS_PADDING);
  Bytes_ m;
  std::string path = c.Path("f");
  int pathno = 0;
  auto f = x.New();
  bool open = false, writable = true, disabled = false, head = false;
  int64_t compared = 0, faked = 0;
  auto same_disk = [&](const char* when, bool padded) {
    std::string raw;
    VCHECK(c, ReadAll(path, &raw), "file-missing", "%s: no file at the path", when);
    const int64_t u = padded ? x.Unit() : 1;
    const int64_t want = (m.n() + u - 1) / u * u;
    VCHECK(c, (int64_t)raw.size() == want, "physical-size", "%s: physical size %zu, logical size %lld, unit %lld", when, raw.size(), (long long)m.n(), (long long)u);
    const int64_t d = m.Diff(0, std::string_view(raw).substr(0, m.n()));
    VCHECK(c, d < 0, "disk-content", "%s: byte %lld on the disk is %02x instead of %02x", when, (long long)d, (unsigned char)raw[d < 0 ? 0 : d], (unsigned char)m.b[d < 0 ? 0 : d]);
    compared += m.n();
  };
  auto do_open = [&](bool w, int32_t opt) {
    c.T(Fmt("Open(writable=%d,opt=%d)", w, opt));
    const bool existed = Exists(path);
    Status st = x.Open(f.get(), path, w, opt);
    if ((x.opt & PositionalFile::ACCESS_DIRECT) && st != Status::SUCCESS) { c.Stat("direct_unsupported"); return false; }
    if (!existed && (!w || (opt & File::OPEN_NO_CREATE))) {
      VCHECK(c, st != Status::SUCCESS, "open-missing", "opening a missing file succeeded");
      VCHECK(c, !Exists(path), "open-created", "the refused open created the file");
      return false;
    }
    VCHECK(c, st == Status::SUCCESS, "open", "open: %s", Str(st).c_str());
    open = true; writable = w; disabled = false; head = false;
    if (w && (opt & File::OPEN_TRUNCATE)) { m = Bytes_(); }
    m.stale = 0;
    if (padding) {  // the file keeps the padding as content
      int64_t sz = 0;
      f->GetSize(&sz);
      const int64_t want = (m.n() + x.Unit() - 1) / x.Unit() * x.Unit();
      VCHECK(c, sz == want || sz == m.n(), "size", "after reopening: size %lld, expected %lld (+padding)", (long long)sz, (long long)m.n());
      m.stale = sz; m.Resize(sz); m.stale = 0;
    }
    VCHECK(c, f->IsOpen(), "isopen", "IsOpen is false after opening");
    return true;
  };
  auto read_check = [&](int64_t off, int64_t size, const char* how) {
    char* buf = (char*)malloc(size ? size : 1);
    memset(buf, 0x55, size);
    const Status st = f->Read(off, buf, size);
    if (off < 0 || off > m.n() || size > m.n() - off) {
      free(buf);
      VCHECK(c, st != Status::SUCCESS, "out-of-range-read", "%s: Read(%lld,%lld) of a file of %lld bytes succeeded", how, (long long)off, (long long)size, (long long)m.n());
      c.Stat("rejected_reads");
      return;
    }
    if (st != Status::SUCCESS) { free(buf); c.Fail("read-failed", Fmt("%s: Read(%lld,%lld) of %lld bytes: %s", how, (long long)off, (long long)size, (long long)m.n(), Str(st).c_str())); }
    const int64_t d = m.Diff(off, std::string_view(buf, size));
    const unsigned got = d < 0 ? 0 : (unsigned char)buf[d - off], want = d < 0 ? 0 : (unsigned char)m.b[d];
    compared += size;
    c.Sig(HashBytes(buf, 0) + size);
    free(buf);
    VCHECK(c, d < 0, "content", "%s: Read(%lld,%lld): byte %lld is %02x, written %02x", how, (long long)off, (long long)size, (long long)d, got, want);
  };
  auto sizes = [&](const char* how) {
    int64_t sz = -1;
    const Status st = f->GetSize(&sz);
    VCHECK(c, st == Status::SUCCESS && sz == m.n(), "size", "%s: size %lld (%s), expected %lld", how, (long long)sz, Str(st).c_str(), (long long)m.n());
  };
  auto full = [&](const char* how) { sizes(how); read_check(0, m.n(), how); };
  if (g.P(20)) { if (do_open(false, 0)) c.Fail("open-missing", "read-only open of nothing"); if (do_open(true, File::OPEN_NO_CREATE)) c.Fail("open-missing", "no-create open of nothing"); }
  if (!do_open(true, g.P(20) ? File::OPEN_TRUNCATE : 0)) return;
  for (int i = 0; i < nops; i++) {
    if (!open) {
      char b;
      if (g.P(15)) {
        int64_t sz;
        VCHECK(c, f->Read(0, &b, 0) != Status::SUCCESS && f->Write(0, "x", 1) != Status::SUCCESS && f->Append("x", 1) != Status::SUCCESS && f->Expand(1) != Status::SUCCESS && f->Truncate(0) != Status::SUCCESS && f->GetSize(&sz) != Status::SUCCESS && f->Close() != Status::SUCCESS && f->Synchronize(false) != Status::SUCCESS && !f->IsOpen(), "closed-op", "an operation on a closed file succeeded");
        same_disk("closed", padding);
      }
      if (g.P(20)) f = x.New();
      else if (x.kind != 5 && g.P(20)) { auto f2 = f->MakeFile(); VCHECK(c, f->CopyProperties(f2.get()) == Status::SUCCESS, "copyprops", "CopyProperties failed"); f = std::move(f2); c.Stat("copied_properties"); }
      bool w = g.P(80);
      int32_t o = 0;
      if (g.P(15)) o |= File::OPEN_NO_LOCK;
      if (g.P(15)) o |= File::OPEN_NO_CREATE;
      if (g.P(10)) o |= File::OPEN_SYNC_HARD;
      if (g.P(5)) o |= File::OPEN_TRUNCATE;
      if (!do_open(w, o)) return;
      full("after reopening");
      continue;
    }
    const int k = (int)g.U(100);
    if (!writable && k < 70) {
      if (g.P(40)) {
        VCHECK(c, f->Write(0, "x", 1) != Status::SUCCESS && f->Append("x", 1) != Status::SUCCESS && f->Expand(1) != Status::SUCCESS && f->Truncate(0) != Status::SUCCESS, "readonly-op", "an update of a read-only file succeeded");
        sizes("read-only update");
      }
      const int64_t off = Off(g, m.n(), x.Unit());
      read_check(off, Len(g), "read-only");
      if (i % 7 == 6) { c.T("Close"); VCHECK(c, f->Close() == Status::SUCCESS, "close", "close failed"); open = false; same_disk("after a read-only session", padding); }
      continue;
    }
    if (k < 22) {
      const int64_t off = Off(g, m.n(), x.Unit()), len = Len(g);
      if (m.n() > 300000) continue;
      const std::string d = Data(g, len);
      c.T(Fmt("Write(%lld,%lld)", (long long)off, (long long)len));
      const Status st = f->Write(off, d.data(), d.size());
      VCHECK(c, st == Status::SUCCESS, "write", "Write(%lld,%lld): %s", (long long)off, (long long)len, Str(st).c_str());
      if (len == 0) {  // an empty write may or may not extend the file
        int64_t sz = 0; f->GetSize(&sz);
        VCHECK(c, sz == m.n() || sz == std::max(off, m.n()), "size", "size %lld after an empty write at %lld of %lld", (long long)sz, (long long)off, (long long)m.n());
        m.Resize(sz);
      } else m.Write(off, d);
    } else if (k < 40) {
      const int64_t len = Len(g);
      if (m.n() > 300000) continue;
      const std::string d = Data(g, len);
      int64_t off = -1;
      c.T(Fmt("Append(%lld) at %lld", (long long)len, (long long)m.n()));
      const Status st = f->Append(d.data(), d.size(), g.P(80) ? &off : nullptr);
      VCHECK(c, st == Status::SUCCESS, "append", "Append(%lld): %s", (long long)len, Str(st).c_str());
      VCHECK(c, off == -1 || off == m.n(), "append-offset", "Append returned offset %lld, the end was %lld", (long long)off, (long long)m.n());
      m.Write(m.n(), d);
    } else if (k < 45) {
      const int64_t len = Len(g);
      if (m.n() > 300000) continue;
      int64_t old = -1;
      c.T(Fmt("Expand(%lld) at %lld", (long long)len, (long long)m.n()));
      const Status st = f->Expand(len, &old);
      VCHECK(c, st == Status::SUCCESS && old == m.n(), "expand", "Expand(%lld): %s, old size %lld, expected %lld", (long long)len, Str(st).c_str(), (long long)old, (long long)m.n());
      m.Resize(m.n() + len);
    } else if (k < 52) {
      const int64_t size = g.P(15) ? 0 : g.P(70) ? g.U(m.n() + 1) : std::min<int64_t>(m.n() + Len(g), 300000);
      if (disabled && x.K() == 4) continue;
      c.T(Fmt("Truncate(%lld) from %lld", (long long)size, (long long)m.n()));
      const Status st = f->Truncate(size);
      VCHECK(c, st == Status::SUCCESS, "truncate", "Truncate(%lld) of %lld: %s", (long long)size, (long long)m.n(), Str(st).c_str());
      m.Truncate(size);
    } else if (k < 55) {
      const int64_t size = g.P(85) ? g.U(m.n() + 1) : m.n() + Len(g);
      c.T(Fmt("TruncateFakely(%lld) from %lld", (long long)size, (long long)m.n()));
      const Status st = f->TruncateFakely(size);
      if (size <= m.n()) VCHECK(c, st == Status::SUCCESS, "truncate-fakely", "TruncateFakely(%lld) of %lld: %s", (long long)size, (long long)m.n(), Str(st).c_str());
      if (st == Status::SUCCESS) m.Fake(size);
      faked++;
    } else if (k < 60) {
      const bool hard = g.P(40);
      int64_t off = 0, size = 0;
      if (g.P(30)) { off = g.U(m.n() + 1); size = Len(g); }
      c.T(Fmt("Synchronize(%d,%lld,%lld)", hard, (long long)off, (long long)size));
      const Status st = f->Synchronize(hard, off, size);
      VCHECK(c, st == Status::SUCCESS, "synchronize", "Synchronize(%d,%lld,%lld) of %lld bytes: %s", hard, (long long)off, (long long)size, (long long)m.n(), Str(st).c_str());
      VCHECK(c, f->IsOpen(), "isopen", "Synchronize left the file closed");
      if (off == 0 && size == 0 && !disabled && !(x.K() == 4 && faked)) { same_disk("after Synchronize", true); c.Stat("synchronized"); }
      if (!disabled && x.K() != 4) { /* the physical tail is cut */ }
    } else if (k < 63) {
      if (disabled) continue;
      if (x.K() == 4 && m.stale > m.n()) continue;
      const std::string np = c.Path(Fmt("f%d", ++pathno % 5));
      c.T("Rename(" + np + ")");
      const Status st = f->Rename(np);
      VCHECK(c, st == Status::SUCCESS, "rename", "Rename: %s", Str(st).c_str());
      if (np != path) VCHECK(c, Exists(np) && !Exists(path), "rename", "after Rename the old path exists (%d), the new one (%d)", Exists(path), Exists(np));
      path = np;
      std::string gp;
      VCHECK(c, f->GetPath(&gp) == Status::SUCCESS && gp == path, "getpath", "GetPath says %s after Rename to %s", gp.c_str(), path.c_str());
    } else if (k < 64) {
      if (!g.P(30)) continue;
      VCHECK(c, f->DisablePathOperations() == Status::SUCCESS, "disable", "DisablePathOperations failed");
      disabled = true;
      std::string gp;
      VCHECK(c, f->GetPath(&gp) != Status::SUCCESS && f->Rename(path + "x") != Status::SUCCESS, "disabled-path", "a path operation succeeded after DisablePathOperations");
      c.T("DisablePathOperations");
    } else if (k < 66) {
      auto* p = dynamic_cast<PositionalFile*>(x.kind == 5 ? static_cast<PolyFile*>(f.get())->GetInternalFile() : f.get());
      if (!p) continue;
      const int64_t u = p->GetBlockSize();
      VCHECK(c, u == x.Unit(), "block-size", "GetBlockSize %lld, expected %lld", (long long)u, (long long)x.Unit());
      int64_t hs = g.P(20) ? 0 : u * g.R(1, std::max<int64_t>(1, 2000 / u));
      int64_t before = m.n();
      c.T(Fmt("SetHeadBuffer(%lld)", (long long)hs));
      const Status st = p->SetHeadBuffer(hs);
      int64_t sz = 0; f->GetSize(&sz);
      if (m.n() < hs) { VCHECK(c, st != Status::SUCCESS || sz == before, "size", "SetHeadBuffer changed the size from %lld to %lld", (long long)before, (long long)sz); }
      else VCHECK(c, st == Status::SUCCESS, "head-buffer", "SetHeadBuffer(%lld) of a file of %lld bytes: %s", (long long)hs, (long long)m.n(), Str(st).c_str());
      head = st == Status::SUCCESS && hs > 0;
      if (head) c.Reach("head buffer");
    } else if (k < 69) {
      const int64_t far = g.Pick<int64_t>({m.n() + 1, INT64_MAX, INT64_MAX - 5, m.n() + (1ll << 40)});
      read_check(far, g.R(1, 100), "far");
      if (g.P(50)) read_check(-g.R(1, 50), g.R(1, 100), "negative");
    } else if (k < 74) {
      if (!g.P(60)) continue;
      c.T("Close");
      const Status st = f->Close();
      if (!(disabled && x.K() == 4)) VCHECK(c, st == Status::SUCCESS, "close", "Close: %s", Str(st).c_str());
      open = false;
      if (disabled && x.K() == 4 && faked) return;
      same_disk("after Close", padding);
      disabled = false;
      faked = 0;
    } else if (k < 92) {
      const int64_t off = Off(g, m.n(), x.Unit()), len = Len(g);
      read_check(off, len, "read");
    } else if (x.Atomic() && x.kind != 5 && k < 95 && writable) {
      // the explicit critical section of the atomic files
      auto section = [&](auto* a) {
        const int64_t sz = a->Lock();
        const int64_t off = g.U(m.n() + 1), len = std::min<int64_t>(Len(g), m.n() - off);
        std::string d = Data(g, len), r(len, 0);
        const Status s1 = a->ReadInCriticalSection(off, &r[0], len), s2 = a->WriteInCriticalSection(off, d.data(), len), s3 = a->ReadInCriticalSection(off, &d[0], 0);
        const int64_t sz2 = a->Unlock();
        VCHECK(c, sz == m.n() && sz2 == sz && s1 == Status::SUCCESS && s2 == Status::SUCCESS && s3 == Status::SUCCESS && m.Diff(off, r) < 0, "critical-section", "sizes %lld, %lld (expected %lld), statuses %s, %s", (long long)sz, (long long)sz2, (long long)m.n(), Str(s1).c_str(), Str(s2).c_str());
        m.Write(off, d);
        c.Stat("critical_sections");
      };
      if (x.kind == 4) section(static_cast<StdFile*>(f.get()));
    } else if (m.n() < 20000 || g.P(20)) full("scan");
    else sizes("scan");
  }
  if (open) {
    full("end");
    const Status st = f->Close();
    if (!(disabled && x.K() == 4)) {
      VCHECK(c, st == Status::SUCCESS, "close", "Close: %s", Str(st).c_str());
      same_disk("after the last Close", writable || padding ? padding : false);
    }
  }
  c.Max("largest_file", m.n());
  c.Stat("bytes_compared", compared);
  c.Sig(g.Next());
  if (compared > 0) c.nontrivial = true;
}

// Threads on one file: appends tile the file, disjoint regions are independent, atomic files never tear.
static void Multi(Ctx& c, Rng& g) {
  FileX x = FileX::Make(g);
  if (x.opt & PositionalFile::ACCESS_DIRECT) { x.opt &= ~PositionalFile::ACCESS_DIRECT; }
  const int nt = (int)g.R(2, 6), rounds = (int)g.R(10, c.thorough ? 200 : 60);
  const int64_t region = g.Pick<int64_t>({1, 7, 64, 100, 513, 4096});
  const bool with_sync = g.P(30), with_expand = g.P(30), shared = x.Atomic() && g.P(60);
  const int64_t slen = g.Pick<int64_t>({8, 100, 1000, 9000});
  Describe(c, Fmt("multi %s threads=%d rounds=%d region=%lld sync=%d expand=%d shared=%d(%lld)", x.Str().c_str(), nt, rounds, (long long)region, with_sync, with_expand, shared, (long long)slen));
  const std::string path = c.Path("f");
  auto f = x.New();
  VCHECK(c, x.Open(f.get(), path, true, File::OPEN_TRUNCATE) == Status::SUCCESS, "open", "open failed");
  const int64_t base = nt * region + (shared ? slen : 0);
  const int64_t shared_off = nt * region;
  std::string zero(base, 'z');
  VCHECK(c, f->Write(0, zero.data(), base) == Status::SUCCESS, "write", "initial write failed");
  const bool head = (x.Atomic() || !with_sync) && g.P(30);
  if (head) if (auto* p = dynamic_cast<PositionalFile*>(f.get())) if (x.Unit() <= base) p->SetHeadBuffer(x.Unit() * (1 + g.U(base / x.Unit())));
  struct App { int64_t off; std::string data; };
  std::vector<std::vector<App>> apps(nt);
  std::vector<std::string> mine(nt, std::string(region, 'z'));
  std::vector<std::pair<int64_t, int64_t>> exps[8];
  std::atomic<int> ready{0};
  std::vector<std::string> errs(nt);
  std::atomic<bool> bad{false};
  const uint64_t seed = g.Next();
  std::atomic<int64_t> nreads{0}, ntorn{0};
  DelayHub delay(seed, 10, 30);
  auto body = [&](int t) {
    Rng r(Mix(seed + t));
    auto err = [&](const std::string& e) { errs[t] = e; bad = true; };
    ready++;
    while (ready < nt) std::this_thread::yield();
    for (int i = 0; i < rounds && !bad; i++) {
      delay.Jitter();
      const int k = (int)r.U(10);
      if (k < 3) {
        App a;
        a.data = std::string(r.Pick({1, 5, 17, 100, 511, 3000}), 0);
        for (auto& ch : a.data) ch = (char)('A' + t);
        const std::string tag = Fmt("<%d.%d>", t, i);
        if (a.data.size() >= tag.size()) a.data.replace(0, tag.size(), tag);
        a.off = -1;
        const Status st = f->Append(a.data.data(), a.data.size(), &a.off);
        if (st != Status::SUCCESS) return err("append: " + Str(st));
        apps[t].push_back(a);
      } else if (k < 6) {
        const int64_t o = r.U(region), n = 1 + r.U(region - o);
        std::string d(n, 0);
        for (auto& ch : d) ch = (char)(1 + r.U(250));
        const Status st = f->Write(t * region + o, d.data(), n);
        if (st != Status::SUCCESS) return err("write: " + Str(st));
        mine[t].replace(o, n, d);
      } else if (k < 8) {
        std::string d(region, 0);
        const Status st = f->Read(t * region, &d[0], region);
        if (st != Status::SUCCESS) return err("read of its own region: " + Str(st));
        if (d != mine[t]) return err(Fmt("own region holds %s instead of %s", Show(d).c_str(), Show(mine[t]).c_str()));
        nreads++;
        if (!apps[t].empty()) {
          const App& a = apps[t][r.U(apps[t].size())];
          std::string e(a.data.size(), 0);
          const Status st2 = f->Read(a.off, &e[0], e.size());
          if (st2 != Status::SUCCESS) return err("read of its own appended data: " + Str(st2));
          if (e != a.data) return err(Fmt("appended data at %lld reads %s instead of %s", (long long)a.off, Show(e).c_str(), Show(a.data).c_str()));
        }
      } else if (k == 8 && shared) {
        std::string d(slen, (char)(1 + r.U(250)));
        if (r.P(50)) {
          const Status st = f->Write(shared_off, d.data(), slen);
          if (st != Status::SUCCESS) return err("shared write: " + Str(st));
        } else {
          const Status st = f->Read(shared_off, &d[0], slen);
          if (st != Status::SUCCESS) return err("shared read: " + Str(st));
          ntorn++;
          for (int64_t j = 1; j < slen; j++) if (d[j] != d[0]) return err(Fmt("torn write seen: byte 0 is %02x, byte %lld is %02x", (unsigned char)d[0], (long long)j, (unsigned char)d[j]));
        }
      } else if (k == 8 && with_expand) {
        const int64_t n = r.Pick({1, 10, 300});
        int64_t old = -1;
        const Status st = f->Expand(n, &old);
        if (st != Status::SUCCESS) return err("expand: " + Str(st));
        exps[t].push_back({old, n});
      } else if (with_sync && r.P(30)) {
        const Status st = f->Synchronize(r.P(10));
        if (st != Status::SUCCESS) return err("synchronize: " + Str(st));
      } else {
        int64_t sz = 0;
        const Status st = f->GetSize(&sz);
        if (st != Status::SUCCESS || sz < base) return err(Fmt("size %lld: %s", (long long)sz, Str(st).c_str()));
      }
    }
  };
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++) th.emplace_back(body, t);
  for (auto& t : th) t.join();
  for (int t = 0; t < nt; t++) VCHECK(c, errs[t].empty(), "concurrent", "thread %d: %s", t, errs[t].c_str());
  // appends and expansions tile [base, size)
  auto verify = [&](const char* when) {
    std::vector<std::pair<int64_t, int64_t>> parts;
    int64_t sz = 0, pos = base;
    f->GetSize(&sz);
    for (int t = 0; t < nt; t++) {
      for (auto& a : apps[t]) parts.push_back({a.off, (int64_t)a.data.size()});
      for (auto& e : exps[t]) parts.push_back(e);
    }
    std::sort(parts.begin(), parts.end());
    for (auto& p : parts) { VCHECK(c, p.first == pos, "append-overlap", "%s: region at %lld, the previous one ends at %lld", when, (long long)p.first, (long long)pos); pos += p.second; }
    const int64_t u = (x.Pos() && (x.opt & PositionalFile::ACCESS_PADDING)) ? x.Unit() : 1;
    VCHECK(c, sz == pos || sz == (pos + u - 1) / u * u, "append-size", "%s: regions end at %lld, the size is %lld", when, (long long)pos, (long long)sz);
    for (int t = 0; t < nt; t++) {
      std::string d(region, 0);
      VCHECK(c, f->Read(t * region, &d[0], region) == Status::SUCCESS && d == mine[t], "lost-write", "%s: region of thread %d: %s instead of %s", when, t, Show(d).c_str(), Show(mine[t]).c_str());
      for (auto& a : apps[t]) {
        std::string e(a.data.size(), 0);
        VCHECK(c, f->Read(a.off, &e[0], e.size()) == Status::SUCCESS && e == a.data, "lost-append", "%s: data appended at %lld: %s instead of %s", when, (long long)a.off, Show(e).c_str(), Show(a.data).c_str());
      }
      for (auto& ex : exps[t]) {
        std::string e(ex.second, 1);
        VCHECK(c, f->Read(ex.first, &e[0], e.size()) == Status::SUCCESS && e.find_first_not_of('\0') == std::string::npos, "lost-append", "%s: expanded region at %lld is not null", when, (long long)ex.first);
      }
      c.Stat("appends", apps[t].size());
    }
  };
  verify("after the run");
  VCHECK(c, f->Close() == Status::SUCCESS, "close", "close failed");
  VCHECK(c, x.Open(f.get(), path, false, 0) == Status::SUCCESS, "open", "reopen failed");
  verify("after reopening");
  f->Close();
  c.Stat("own_reads", nreads); c.Stat("tear_probes", ntorn);
  c.Reach(Fmt("multi:%d opt=%d%s%s", x.kind, x.opt, with_sync ? " sync" : "", shared ? " shared" : ""));
  for (auto& v : apps) for (auto& a : v) c.Sig(a.off * 31 + a.data[0]);
  c.nontrivial = true;
}

// Flat records and text lines on any file.
static void Records(Ctx& c, Rng& g) {
  FileX x = FileX::Make(g);
  if (x.opt & PositionalFile::ACCESS_PADDING) { x.opt &= ~(PositionalFile::ACCESS_PADDING | PositionalFile::ACCESS_DIRECT); }
  const int n = (int)g.R(0, 60);
  Describe(c, Fmt("records %s n=%d", x.Str().c_str(), n));
  auto f = x.New();
  VCHECK(c, x.Open(f.get(), c.Path("f"), true, 0) == Status::SUCCESS, "open", "open failed");
  if (g.P(50)) {
    struct R { std::string d; FlatRecord::RecordType t; int64_t off; };
    std::vector<R> w;
    int64_t pos = 0;
    for (int i = 0; i < n; i++) {
      R r;
      r.d = Data(g, g.P(50) ? g.U(60) : g.P(80) ? g.U(300) : g.U(40000));
      r.t = g.P(80) ? FlatRecord::RECORD_NORMAL : FlatRecord::RECORD_METADATA;
      FlatRecord rec(f.get());
      const Status st = rec.Write(r.d, r.t);
      VCHECK(c, st == Status::SUCCESS, "flat-write", "writing a flat record of %zu bytes: %s", r.d.size(), Str(st).c_str());
      VCHECK(c, (int64_t)rec.GetOffset() == pos, "flat-offset", "record %d at %lld, expected %lld", i, (long long)rec.GetOffset(), (long long)pos);
      r.off = pos;
      pos += rec.GetWholeSize();
      VCHECK(c, f->GetSizeSimple() == pos, "flat-size", "file size %lld after record %d ends at %lld", (long long)f->GetSizeSimple(), i, (long long)pos);
      w.push_back(std::move(r));
    }
    if (g.P(50)) { VCHECK(c, f->Close() == Status::SUCCESS && x.Open(f.get(), c.Path("f"), false, 0) == Status::SUCCESS, "open", "reopen failed"); }
    for (int i = 0; i < n; i++) {
      const R& r = w[g.U(n)];
      FlatRecord rec(f.get());
      VCHECK(c, rec.Read(r.off) == Status::SUCCESS && rec.GetData() == r.d && rec.GetRecordType() == r.t && (int64_t)rec.GetOffset() == r.off, "flat-read", "record at %lld: %s instead of %s", (long long)r.off, Show(rec.GetData()).c_str(), Show(r.d).c_str());
    }
    FlatRecordReader rd(f.get(), g.Pick<size_t>({0, 1, 10, 48, 100, 1000, 32768}));
    for (int i = 0; i < n; i++) {
      std::string_view v; FlatRecord::RecordType t = FlatRecord::RECORD_NORMAL;
      const Status st = rd.Read(&v, &t);
      VCHECK(c, st == Status::SUCCESS && v == w[i].d && t == w[i].t, "flat-reader", "record %d of %d: %s, %s instead of %s", i, n, Str(st).c_str(), Show(v).c_str(), Show(w[i].d).c_str());
      c.Stat("flat_records");
    }
    std::string_view v;
    VCHECK(c, rd.Read(&v) == Status::NOT_FOUND_ERROR, "flat-end", "the reader does not stop after the last record");
  } else {
    std::string text;
    for (int i = 0; i < n; i++) { std::string l = Data(g, g.P(60) ? g.U(30) : g.U(12000)); for (auto& ch : l) if (ch == '\n') ch = ' '; text += l; if (i + 1 < n || g.P(50)) text += '\n'; }
    VCHECK(c, f->Append(text.data(), text.size()) == Status::SUCCESS, "append", "append failed");
    const size_t max = g.P(70) ? 0 : (size_t)g.R(1, 50);
    FileReader rd(f.get());
    std::string got, line;
    Status st;
    size_t i = 0;
    while ((st = rd.ReadLine(&line, max)) == Status::SUCCESS) {
      size_t e = text.find('\n', i);
      size_t end = e == std::string::npos ? text.size() : e + 1;
      std::string want = text.substr(i, end - i);
      if (max) want = want.substr(0, max);
      VCHECK(c, line == want, "line", "line at %zu: %s instead of %s (max %zu)", i, Show(line).c_str(), Show(want).c_str(), max);
      i += line.size();
      c.Stat("lines");
      if (i > text.size() + 1) break;
    }
    VCHECK(c, st == Status::NOT_FOUND_ERROR && i == text.size(), "line-end", "reading lines stopped at %zu of %zu with %s", i, text.size(), Str(st).c_str());
  }
  f->Close();
  c.Sig(g.Next());
  c.nontrivial = true;
}

static void Case(Ctx& c, Rng& g, int64_t) {
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
  Multi(c, g);
  return;
#endif
#endif
  const int k = (int)g.U(100);
  if (k < 60) Single(c, g);
  else if (k < 85) Multi(c, g);
  else Records(c, g);
}
int main(int argc, char** argv) { return vh::Main(argc, argv, "C17", Case); }
