#!/usr/bin/env python3
"""Builds tkrzw from /repo's working tree with a sanitizer, runs the driver(s) of one property over seeded cases,
and reports what the monitors saw.  Usage: check.py CXX [--tier quick|thorough] [--seed N] [--replay FILE]
[--cases N] [--part NAME] [--keep]"""
import argparse, concurrent.futures as cf, ctypes, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from specs import SPECS  # noqa: E402

NCPU = max(2, min(os.cpu_count() or 8, 16))
DEFS = ["-D_GNU_SOURCE=1", "-D_FILE_OFFSET_BITS=64", "-D_REENTRANT", "-DNDEBUG", "-D__EXTENSIONS__", "-D_TKRZW_PREFIX=\"/usr/local\"",
        "-D_TKRZW_INCLUDEDIR=\"/usr/local/include\"", "-D_TKRZW_LIBDIR=\"/usr/local/lib\"", "-D_TKRZW_BINDIR=\"/usr/local/bin\"",
        "-D_TKRZW_LIBEXECDIR=\"/usr/local/libexec\"", "-D_TKRZW_APPINC=\"-I/usr/local/include\"", "-D_TKRZW_APPLIBS=\"-ltkrzw\"",
        "-D_TKRZW_COMP_ZLIB", "-D_TKRZW_COMP_ZSTD", "-D_TKRZW_COMP_LZ4", "-D_TKRZW_COMP_LZMA"]
BASE = ["-std=c++17", "-pthread", "-fPIC", "-Wno-everything", "-fno-omit-frame-pointer", "-g1"]
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=function,vptr", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O2"],
}
LIBS = ["-llzma", "-llz4", "-lzstd", "-lz", "-lrt", "-latomic", "-lpthread", "-ldl"]
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:detect_deadlocks=0:print_suppressions=0:suppressions=" + os.path.join(ROOT, "harness", "tsan.supp"),
    "LSAN_OPTIONS": "report_objects=0",
}


class HarnessError(Exception):
    pass


def conf():
    try:
        return open(os.path.join(REPO, "configure.in"), errors="replace").read()
    except OSError:
        return ""


def pkg_version():
    c = conf()
    g = lambda pat, d: (re.search(pat, c, re.M) or [0, d])[1]
    return g(r"^AC_INIT\([^,]*,\s*\[?([\d.]+)", "1.0.0"), g(r"^MYLIBVER=(\d+)", "1"), g(r"^MYLIBREV=(\d+)", "0")


def lib_sources():
    """The library's sources as the build lists them (or, failing that, every source that is no program)."""
    m = re.search(r'^MYLIBOBJFILES="([^"]*)"', conf(), re.M)
    names = [x[:-2] + ".cc" for x in m.group(1).split() if x.endswith(".o")] if m else []
    names = [n for n in names if os.path.exists(os.path.join(REPO, n))]
    if len(names) < 20:
        names = [n for n in sorted(os.listdir(REPO)) if re.fullmatch(r"tkrzw_\w+\.cc", n) and not n.endswith("_test.cc")
                 and not re.search(r"^int main\(", open(os.path.join(REPO, n), errors="replace").read(), re.M)]
    if len(names) < 20:
        raise HarnessError("cannot find the library's sources")
    return names


def subset(srcs, without):
    """The sources left when the named parts (and what only they need) are not linked."""
    return {s for s in srcs if s[6:-3] not in (without or ())}


def build(bdir, drivers):
    """drivers: {(name, variant): parts of the library to leave out}.  Compiles everything in one parallel pool.
    A driver that says which library sources it does not need is linked without those; if that fails, with the whole library."""
    ver, lver, lrev = pkg_version()
    defs = DEFS + ['-D_TKRZW_PKG_VERSION="%s"' % ver, '-D_TKRZW_LIB_VERSION="%s:%s:0"' % (lver, lrev)]
    srcs = lib_sources()
    cc = (["ccache"] if os.environ.get("VERIF_CCACHE") and shutil.which("ccache") else []) + ["clang++"]
    jobs, later = [], {}
    for v in sorted({v for _, v in drivers}):
        os.makedirs(os.path.join(bdir, v), exist_ok=True)
        flags = BASE + VARIANTS[v] + defs + ["-I" + REPO, "-I" + os.path.join(ROOT, "harness")]
        for d, dv in sorted(drivers):
            if dv == v:
                jobs.append((os.path.join(bdir, v, d + ".o"), cc + flags + ["-c", os.path.join(ROOT, "harness", d + ".cc")]))
        need = {x for (d, dv), l in drivers.items() if dv == v for x in (subset(srcs, l))}
        for s in srcs:
            job = (os.path.join(bdir, v, s[:-3] + ".o"), cc + flags + ["-c", os.path.join(REPO, s)])
            (jobs if s in need else later.setdefault(v, [])).append(job)
    big = ["dbm_hash.cc", "dbm_tree.cc", "dbm_skip.cc", "langc", "dbm_baby", "dbm_shard", "str_util", "harness"]
    jobs.sort(key=lambda j: -sum(b in j[1][-1] for b in big))

    def comp(j):
        r = subprocess.run(j[1] + ["-o", j[0]], capture_output=True, text=True)
        return j, r
    def comp_all(js):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for j, r in ex.map(comp, js):
                if r.returncode != 0:
                    raise HarnessError("compile failed: %s\n%s" % (j[1][-1], r.stderr[-3000:]))

    def link(d, v, names):
        objs = [os.path.join(bdir, v, s[:-3] + ".o") for s in names]
        return subprocess.run(["clang++", "-pthread", "-rdynamic"] + VARIANTS[v] + [os.path.join(bdir, v, d + ".o")] + objs + LIBS + ["-o", os.path.join(bdir, v, d)],
                              capture_output=True, text=True)
    comp_all(jobs)
    for (d, v), l in sorted(drivers.items()):
        r = link(d, v, [s for s in srcs if s in subset(srcs, l)])
        if r.returncode != 0 and later.get(v):
            print("note: %s needs more of the library than expected" % d)
            comp_all(later.pop(v))
        if r.returncode != 0:
            r = link(d, v, srcs)
        if r.returncode != 0:
            raise HarnessError("link failed: %s\n%s" % (d, r.stderr[-3000:]))


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)")


def crash_key(log, rc):
    """A stable key for a sanitizer report or a fatal signal."""
    kind = None
    for pat, name in ((r"ERROR: AddressSanitizer: (\S+)", "asan"), (r"WARNING: ThreadSanitizer: ([\w -]+?)(?: \(|\n)", "tsan"),
                      (r"ERROR: LeakSanitizer: (.+)", "lsan"), (r"ThreadSanitizer:(DEADLYSIGNAL)", "tsan")):
        m = re.search(pat, log)
        if m:
            kind = name + ":" + m.group(1).strip().replace(" ", "-")
            break
    if kind is None:
        m = re.search(r"(/\S+?):(\d+):\d+: runtime error: (.+)", log)
        if m:
            msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?", "N", m.group(3))
            kind = "ubsan:" + os.path.basename(m.group(1)) + ":" + "-".join(msg.split()[:6])
    if kind is None:
        m = re.search(r"(terminate called|Assertion .* failed|\*\*\* stack smashing|free\(\): |double free|corrupted)", log)
        kind = "crash:" + (m.group(1).split()[0].lower() if m else ("sig%d" % -rc if rc < 0 else "exit%d" % rc))
    fr = []
    for m in FRAME.finditer(log):
        if m.group(2).startswith(REPO + "/"):
            fn = re.sub(r"\(.*", "", re.sub(r"<[^<>]*>", "", m.group(1)))
            fn = fn.replace("tkrzw::", "")
            if fn not in fr:
                fr.append(fn)
        if len(fr) >= 2:
            break
    return kind + ("@" + "<".join(fr) if fr else "")


class Part:
    def __init__(self, spec, tier):
        self.name = spec["driver"]
        self.without = spec.get("without")
        self.variant = spec.get("variant", "asan")
        self.label = spec.get("label", self.name + "-" + self.variant)
        self.cases = spec["quick"] if tier == "quick" else spec.get("thorough", spec["quick"] * 20)
        self.base = spec.get("base", 0)
        self.timeout = spec.get("case_timeout", 120)
        self.workers = spec.get("workers", NCPU)
        self.env = spec.get("env", {})
        self.require = spec.get("require", [])
        self.chunk = spec.get("chunk", 0)


class Run:
    def __init__(self, pid, tier, seed, bdir):
        self.pid, self.tier, self.seed, self.bdir = pid, tier, seed, bdir
        self.lock = threading.Lock()
        self.viol, self.broken, self.inconclusive = [], [], []
        self.stats, self.maxima, self.states, self.samples = {}, {}, set(), []
        self.sigs, self.evals, self.cases, self.msigs = set(), 0, 0, 0
        self.deadline = None
        self.skipped = 0
        self.scratch_seq = 0

    def proc(self, part, a, b, verbose=False, timeout=None):
        """Runs one driver process over the cases [a, b); returns (rc, cur, desc, log, lines, hung)."""
        with self.lock:
            self.scratch_seq += 1
            n = self.scratch_seq
        d = os.path.join(self.bdir, "s%d" % n)
        os.makedirs(d, exist_ok=True)
        out = os.path.join(self.bdir, "o%d" % n)
        logp = os.path.join(self.bdir, "l%d" % n)
        exe = os.path.join(self.bdir, part.variant, part.name)
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(part.env)
        env["VERIF_HARNESS_DIR"] = os.path.join(ROOT, "harness")
        env["TMPDIR"] = d
        cmd = [exe, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--dir", d, "--out", out, "--tier", self.tier]
        if verbose:
            cmd.append("--verbose")
        limit = timeout or part.timeout
        with open(logp, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=lf, env=env, start_new_session=True, cwd=d)
            last, last_t, hung = None, time.time(), False
            while True:
                try:
                    p.wait(0.05 if last is None else 0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = self.progress(out)
                key = (cur[0], cur[1])
                if key != last:
                    last, last_t = key, time.time()
                elif time.time() - last_t > limit:
                    hung = True
                    try:
                        os.killpg(p.pid, signal.SIGABRT)
                        time.sleep(1)
                    except ProcessLookupError:
                        pass
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
        cur, done, desc = self.progress(out)
        log = open(logp, "rb").read()
        log = (log[:60000] + log[-60000:] if len(log) > 120000 else log).decode("utf-8", "replace")
        lines = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        for q in (out, logp, out + ".progress"):
            if os.path.exists(q):
                os.unlink(q)
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, cur, desc, log, lines, hung

    @staticmethod
    def progress(out):
        try:
            with open(out + ".progress", "rb") as f:
                b = f.read(2016)
            if len(b) < 2016:
                return -1, 0, ""
            cur, done = struct.unpack("qq", b[:16])
            return cur, done, b[16:].split(b"\0")[0].decode("utf-8", "replace")
        except OSError:
            return -1, 0, ""

    def absorb(self, part, lines):
        with self.lock:
            for o in lines:
                t = o.get("t")
                if t == "c":
                    self.cases += 1
                    self.evals += 1 + o.get("e", 0)
                    if o.get("nt"):
                        self.sigs.add(part.label + o["sig"])
                elif t == "sum":
                    for k, v in o["stats"].items():
                        self.stats[k] = self.stats.get(k, 0) + v
                    for k, v in o["max"].items():
                        self.maxima[k] = max(self.maxima.get(k, v), v)
                    self.states.update(o["states"])
                    if len(self.samples) < 6:
                        self.samples.extend({"part": part.label, "case": s} for s in o["samples"][:1])
                    self.msigs += o.get("msigs", 0)
                elif t == "viol":
                    o["part"] = part.label
                    self.viol.append(o)
                elif t == "broken":
                    self.broken.append("%s case %s: %s" % (part.label, o.get("case"), o.get("msg")))

    def chunk(self, part, a, b):
        restarts = 0
        while a < b:
            if time.time() > self.deadline or len(self.viol) >= 40:
                with self.lock:
                    self.skipped += b - a
                return
            rc, cur, desc, log, lines, hung = self.proc(part, a, b)
            self.absorb(part, lines)
            if rc == 0 and not hung:
                return
            if rc == 42:
                if not any(o.get("t") == "broken" for o in lines):
                    with self.lock:
                        self.broken.append("%s: harness exit: %s" % (part.label, log[-500:]))
                return
            if cur < 0 and cur != -2:
                with self.lock:
                    self.broken.append("%s: died before the first case (rc %s): %s" % (part.label, rc, log[-800:]))
                return
            if cur == -2:  # died after the last case (leak report at exit, static destruction)
                with self.lock:
                    self.viol.append({"t": "viol", "part": part.label, "case": b - 1, "key": crash_key(log, rc), "msg": log[-3000:], "desc": "at process end", "trace": []})
                return
            if hung or rc == -9:
                # Run that one case again, alone and with more time, before calling it a hang.
                rc2, cur2, _, log2, lines2, hung2 = self.proc(part, cur, cur + 1, timeout=part.timeout * 2)
                if rc2 == 0 and not hung2:
                    self.absorb(part, lines2)
                    with self.lock:
                        self.inconclusive.append("%s case %d did not finish in %d s once, then did" % (part.label, cur, part.timeout))
                elif any(o.get("t") == "viol" for o in lines2):
                    self.absorb(part, lines2)
                else:
                    key = "hang" if hung2 else crash_key(log2, rc2)
                    with self.lock:
                        self.viol.append({"t": "viol", "part": part.label, "case": cur, "key": key, "msg": "no progress in %d s (twice)" % part.timeout if hung2 else log2[-3000:], "desc": desc, "trace": []})
            else:
                if not any(o.get("t") == "viol" and o.get("case") == cur and o.get("fatal") for o in lines):
                    with self.lock:
                        i = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|runtime error|ERROR: LeakSanitizer)", log)
                        self.viol.append({"t": "viol", "part": part.label, "case": cur, "key": crash_key(log, rc),
                                          "msg": (log[max(0, i.start() - 200):i.start() + 6000] if i else log[-3000:]), "desc": desc, "trace": []})
            with self.lock:
                self.cases += 1
                self.evals += 1
            a = cur + 1
            restarts += 1
            if restarts >= 6:
                with self.lock:
                    self.skipped += b - a
                return

    def part(self, part):
        n = part.cases
        size = part.chunk or max(1, n // (part.workers * 6))
        chunks = [(a, min(a + size, part.base + n)) for a in range(part.base, part.base + n, size)]
        with cf.ThreadPoolExecutor(part.workers) as ex:
            list(ex.map(lambda c: self.chunk(part, *c), chunks))


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def match_known(known, pid, v):
    for f in known["findings"]:
        if f["property"] != pid:
            continue
        if not re.fullmatch(f["key"], v["key"]):
            continue
        if f.get("part") and not re.fullmatch(f["part"], v.get("part", "")):
            continue
        if f.get("msg") and not re.search(f["msg"], v.get("msg", ""), re.S):
            continue
        if f.get("desc") and not re.search(f["desc"], v.get("desc", ""), re.S):
            continue
        return f
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--part")
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--build-only", metavar="DIR")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.setup:  # nothing is prepared ahead: every check builds from /repo's current tree
        missing = [t for t in ("clang++",) if not shutil.which(t)]
        print("missing: " + " ".join(missing) if missing else "ready")
        return 1 if missing else 0
    pid, spec = a.pid, SPECS[a.pid]
    t0 = time.time()
    for base in ("/dev/shm", "/tmp"):
        try:
            bdir = tempfile.mkdtemp(prefix="vh-", dir=base)
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > (4 << 30):
                break
            os.rmdir(bdir)
        except OSError:
            continue
    else:
        bdir = tempfile.mkdtemp(prefix="vh-")
    if a.build_only:
        bdir = a.build_only
        os.makedirs(bdir, exist_ok=True)

    def bye(*_):
        shutil.rmtree(bdir, ignore_errors=True)
        os._exit(2)
    signal.signal(signal.SIGTERM, bye)
    signal.signal(signal.SIGINT, bye)
    try:
        parts = [Part(p, a.tier) for p in spec["parts"]]
        rep = None
        if a.replay:
            rep = json.load(open(a.replay))
            a.seed, a.tier = rep["seed"], rep["tier"]
            parts = [Part(p, a.tier) for p in spec["parts"]]
            parts = [p for p in parts if p.label == rep["part"]]
        if a.part:
            parts = [p for p in parts if p.label == a.part or p.name == a.part]
        if a.cases is not None:
            for p in parts:
                p.cases = a.cases
        drivers = {}
        for p in parts:
            k = (p.name, p.variant)
            drivers[k] = p.without if k not in drivers else tuple(set(drivers[k] or ()) & set(p.without or ()))
        build(bdir, drivers)
        if a.build_only:
            print("built in", bdir)
            return 0
        tb = time.time() - t0
        run = Run(pid, a.tier, a.seed, bdir)
        run.deadline = time.time() + (600 if a.tier == "quick" else 4 * 3600)
        if rep or a.case is not None:
            c = rep["case"] if rep else a.case
            for p in parts:
                rc, cur, desc, log, lines, hung = run.proc(p, c, c + 1, verbose=True)
                print(log[-20000:])
                print("rc", rc, "hung", hung, "desc", desc)
                if rc not in (0,) and not hung:
                    print("key", crash_key(log, rc))
                bad = rc != 0 or hung or any(o.get("t") == "viol" for o in lines)
                if bad:
                    print("REPRODUCED")
                    return 1
            print("did not reproduce")
            return 0
        for p in parts:
            ts = time.time()
            run.part(p)
            run.stats["_wall_" + p.label] = int(time.time() - ts)
        known = load_known()
        new, seen_known = {}, {}
        for v in run.viol:
            f = match_known(known, pid, v)
            if f:
                seen_known.setdefault(f["id"], []).append(v)
            else:
                new.setdefault(v["key"], []).append(v)
        for f in known["findings"]:
            if f["property"] == pid:
                n = len(seen_known.get(f["id"], []))
                print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (pid, f["what"], n))
        rdir = os.path.join(ROOT, "replays")
        rc = 0
        for key, vs in sorted(new.items()):
            os.makedirs(rdir, exist_ok=True)
            v = vs[0]
            rp = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
            json.dump({"property": pid, "part": v.get("part"), "seed": a.seed, "tier": a.tier, "case": v.get("case"), "key": key, "count": len(vs),
                       "msg": v.get("msg"), "desc": v.get("desc"), "trace": v.get("trace"), "how": "python3 /verif/check.py %s --replay %s" % (pid, rp)}, open(rp, "w"), indent=1)
            print("  [%s] part %s case %s (%d times): %s" % (key, v.get("part"), v.get("case"), len(vs), (v.get("msg") or "")[:1500]))
            print("     %s" % (v.get("desc") or "")[:600])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            rc = 1
        problems = list(run.broken)
        want = sum(p.cases for p in parts)
        if rc == 0:
            if len(run.sigs) == 0:
                problems.append("no non-trivial case was observed")
            for p in parts:
                for r in p.require:
                    if r not in run.states and not run.stats.get(r):
                        problems.append("required observation never made: " + r)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": spec["level"],
              "coverage": {"evaluations": run.evals, "distinct_nontrivial": len(run.sigs), "rule": spec["rule"], "samples": run.samples[:6] or ["none"],
                           "cases": run.cases, "cases_planned": want, "cases_skipped": run.skipped, "distinct_sub_evaluations": run.msigs,
                           "observed": {k: v for k, v in sorted(run.stats.items()) if not k.startswith("_")},
                           "maxima": dict(sorted(run.maxima.items())), "states_reached": sorted(run.states)[:400],
                           "inconclusive": run.inconclusive[:20], "builds": sorted({p.variant for p in parts})},
              "assumptions": spec.get("assumptions", ["held on the executions described by coverage; other executions are not covered"]),
              "wall_s": round(time.time() - t0, 1), "violations": sum(len(v) for v in new.values())}
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s seed=%d: %d cases (%d evaluations, %d distinct non-trivial), build %.0f s, total %.0f s, skipped %d, inconclusive %d, parts %s" % (
            pid, a.tier, a.seed, run.cases, run.evals, len(run.sigs), tb, time.time() - t0, run.skipped, len(run.inconclusive),
            {p.label: run.stats.get("_wall_" + p.label) for p in parts}))
        if rc == 0 and problems:
            for p in problems[:10]:
                print("HARNESS PROBLEM:", p)
            return 2
        for p in problems[:10]:
            print("note:", p)
        return rc
    except HarnessError as e:
        print("HARNESS PROBLEM:", e)
        return 2
    finally:
        if not a.keep and not a.build_only:
            shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
