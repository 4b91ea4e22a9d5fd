#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> [quick|thorough] [--replay FILE]

Builds the library from /repo's working tree with sanitizers, runs the property's harness in several
worker processes, and turns what the monitors observed into a verdict:
  exit 0  property held on everything explored
  exit 1  violation; prints 'VIOLATION property=<id> replay=<path>'
  exit 3+ the check itself failed (build error, nothing observed, inconclusive timeout)
"""
import sys, os, re, json, time, hashlib, subprocess, shutil, signal, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DW_REPO", "/repo")
BUILD = os.environ.get("DW_BUILD", os.path.join(VERIF, ".build"))
sys.path.insert(0, VERIF)
from checks_config import CHECKS

NCPU = min(8, os.cpu_count() or 4)
BASE = ["-std=c++17", "-w", "-DNDEBUG", "-DHAVE_PNG", "-DHAVE_JPEG", "-fopenmp",
        "-include", "array", "-include", "limits", "-include", "cstdint",
        "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/shim",
        "-isystem", "/usr/include/eigen3"]
UB = ("-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,float-cast-overflow,"
      "unreachable,return,vla-bound,bool,enum,nonnull-attribute,returns-nonnull-attribute,builtin,pointer-overflow")
VARIANTS = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", UB, "-fno-sanitize-recover=all"],
    "rel":  ["-O2", "-g1"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "cov":  ["-O1", "-g1", "-fsanitize-coverage=trace-pc"],
}
LINK = {"asan": ["-fsanitize=address", UB], "rel": [], "tsan": ["-fsanitize=thread"], "cov": []}
ADE_RE = re.compile(r"(^|/)(model/model|model/graphbuilder|runtime/cpu/cpubackend|serialization)\.cpp$")


def probe_noaslr():
    """ThreadSanitizer refuses some ASLR layouts; use setarch -R where it is permitted."""
    try:
        if subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            return ["setarch", "-R"]
    except OSError:
        pass
    return []


NOASLR = probe_noaslr()


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def repo_sources():
    """Library sources as listed by /repo/src/CMakeLists.txt (falls back to a glob)."""
    srcs = []
    try:
        text = open(REPO + "/src/CMakeLists.txt").read()
        text = re.sub(r"#.*", "", text)
        for m in re.finditer(r"(?:\$\{CMAKE_CURRENT_LIST_DIR\}/|\$\{CMAKE_CURRENT_SOURCE_DIR\}/)?([\w./-]+\.cpp)", text):
            p = os.path.join(REPO, "src", m.group(1))
            if os.path.exists(p) and p not in srcs:
                srcs.append(p)
    except OSError:
        pass
    if len(srcs) < 5:
        srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    return srcs


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".inl", ".ipp", ".hh")) or (d.endswith("/samples") and f.endswith(".cpp")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


_hdr = {}
def header_hash(own):
    k = bool(own)
    if k not in _hdr:
        dirs = [REPO + "/include", REPO + "/src", VERIF + "/shim"] + ([VERIF + "/harness", REPO + "/samples"] if own else [])
        _hdr[k] = tree_hash(dirs)
    return _hdr[k]


def compile_one(src, variant, extra=(), own=False):
    flags = BASE + VARIANTS[variant] + list(extra)
    cc = "gcc" if src.endswith(".c") else "g++"
    if cc == "gcc":
        flags = [f for f in flags if f != "-std=c++17"]
    h = hashlib.sha256("\0".join([src, cc] + flags).encode())
    h.update(open(src, "rb").read())
    h.update(header_hash(own).encode())
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + variant + "." + h.hexdigest()[:24] + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp.o" % os.getpid()
    if cc == "gcc":
        flags = [f for i, f in enumerate(flags) if not (f == "-include" or (i and flags[i-1] == "-include"))]
    r = subprocess.run([cc] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("compilation of %s (%s) failed:\n%s" % (src, variant, r.stdout[-4000:]))
    os.replace(tmp, obj)
    return obj


def build(cfg, variant):
    """Compiles what the harness needs and links it; hinted sources first, everything on link failure."""
    srcs = repo_sources()
    core = [s for s in srcs if not ADE_RE.search(s) and "#include <ade/" not in open(s).read().replace("# include", "#include")]
    ade = [s for s in srcs if s not in core]
    own = [os.path.join(VERIF, "harness", f) for f in cfg["src"]]
    if variant == "tsan":
        own.append(os.path.join(VERIF, "shim", "gomp", "gomp.cpp"))
    hints = cfg.get("hints")
    wanted = []
    if cfg.get("model"):
        wanted = core + ade
    elif hints:
        wanted = [s for s in core if any(re.search(x, s) for x in hints)]
        if not wanted:
            wanted = core
    else:
        wanted = core
    # Largest first: kernels.cpp dominates.
    def go(lst):
        order = sorted([(s, False) for s in lst] + [(s, True) for s in own],
                       key=lambda x: (-("kernels" in x[0] or x[1] or "nn.cpp" in x[0]), x[0]))
        with ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(lambda x: compile_one(x[0], variant, [f.replace("@REPO@", REPO) for f in cfg.get("cxx", ())] if x[1] else (), x[1]), order))
        exe = os.path.join(BUILD, "bin", "%s.%s.%d" % (cfg["id"], variant, os.getpid()))
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        # tsan: our OpenMP runtime replaces libgomp (compile with -fopenmp, link without)
        omp = [] if variant == "tsan" else ["-fopenmp"]
        r = subprocess.run(["g++"] + LINK[variant] + objs + ["-o", exe] + omp + ["-lpng", "-ljpeg", "-lpthread", "-ldl"] + list(cfg.get("libs", ())),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return exe, r
    exe, r = go(wanted)
    if r.returncode != 0 and set(wanted) != set(core) and not cfg.get("model"):
        exe, r = go(core)
    if r.returncode != 0 and not cfg.get("model"):
        exe, r = go(core + ade)
    if r.returncode != 0:
        raise CheckError("link of %s (%s) failed:\n%s" % (cfg["id"], variant, r.stdout[-4000:]))
    return exe


def san_env(variant, scratch, omp):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("OMP_", "GOMP_")):
            del e[k]
    e["OMP_NUM_THREADS"] = str(omp)
    e["OMP_WAIT_POLICY"] = "passive"
    e["OMP_DYNAMIC"] = "false"
    e["LC_ALL"] = "C"
    e["TMPDIR"] = scratch
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=86:detect_leaks=0:max_malloc_fill_size=268435456:malloc_fill_byte=255:"
                         "allocator_may_return_null=0:detect_stack_use_after_return=1:strict_memcmp=1:"
                         "quarantine_size_mb=64:handle_abort=1:print_summary=1:max_allocation_size_mb=12000")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=86"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=86:report_signal_unsafe=0:history_size=4"
    return e


def cpu_of(pid):
    """CPU seconds used by a process with all its threads."""
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


SAN_RE = re.compile(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|SUMMARY: [^\n]*Sanitizer[^\n]*)")


class Worker:
    def __init__(self, exe, variant, cfg, seed, tier, shard, nshards, scratch, omp, timeout, only=None, stall=60):
        self.exe, self.variant, self.cfg = exe, variant, cfg
        tag = "%s.%d" % (variant, shard) + (".only%d.%d" % (only, omp) if only is not None else "")
        self.res = os.path.join(scratch, tag + ".json")
        self.cur = os.path.join(scratch, tag + ".cur")
        self.err = os.path.join(scratch, tag + ".err")
        self.work = os.path.join(scratch, tag + ".d")
        os.makedirs(self.work, exist_ok=True)
        self.args = NOASLR * (variant == "tsan") + [exe, "--seed", str(seed), "--tier", tier, "--shard", str(shard), "--nshards", str(nshards),
                     "--out", self.res, "--cur", self.cur, "--work", self.work, "--verif", VERIF, "--repo", REPO]
        self.omp = omp
        if only is not None:
            self.args += ["--only", str(only)]
        for p in (self.res, self.cur):
            if os.path.exists(p):
                os.unlink(p)
        self.timeout, self.stall, self.late = timeout, stall, False
        self.shard, self.only = shard, only
        self.scratch = scratch

    def run(self):
        t0 = time.time()
        with open(self.err, "wb") as ef:
            p = subprocess.Popen(self.args, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL,
                                 env=san_env(self.variant, self.work, self.omp), cwd=self.work, start_new_session=True)
            self.rc, self.hung, self.asleep = None, False, False
            stall = 0.0; last = None; cpu0 = 0.0
            while True:
                try:
                    self.rc = p.wait(0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                # time without progress, counted in polls so that a suspended machine does not count
                try:
                    st = os.stat(self.cur); now = (st.st_mtime_ns, st.st_size)
                except OSError:
                    now = None
                if now != last:
                    last, stall, cpu0 = now, 0.0, cpu_of(p.pid)
                else:
                    stall += 0.25
                if stall >= self.stall or time.time() - t0 >= self.timeout:
                    self.hung = stall >= self.stall
                    self.late = not self.hung
                    self.asleep = self.hung and cpu_of(p.pid) - cpu0 < 0.02 * stall
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    break
        self.wall = time.time() - t0
        self.result = None
        try:
            self.result = json.load(open(self.res))
        except Exception:
            pass
        self.curcase = None
        try:
            s = open(self.cur).read().split("\n", 1)
            self.curcase = (int(s[0]), s[1] if len(s) > 1 else "")
        except Exception:
            pass
        return self

    def errtext(self, n=6000):
        try:
            t = open(self.err, "rb").read().decode("utf-8", "replace")
        except OSError:
            return ""
        m = SAN_RE.search(t)
        if m:
            return t[m.start():m.start() + n]
        return t[-n:]

    def verdict(self):
        """-> ('ok'|'violation'|'hang'|'error', detail)"""
        if self.hung:
            return "hang", "no progress within %ds at case %s" % (self.stall, self.curcase)
        if self.late:
            return "error", "not finished within %ds, at case %s (inconclusive)" % (self.timeout, self.curcase)
        r = self.result
        if self.rc in (0, 1) and r is not None and r.get("complete"):
            return ("violation" if r["violations"] else "ok"), None
        if self.rc == 7 and r is not None:
            return "error", r.get("error", "harness error")
        t = self.errtext(200000)
        if "HARNESS-ERROR" in t:
            return "error", t[-3000:]
        if "FATAL: ThreadSanitizer" in t:      # the runtime could not start: says nothing about the code
            return "error", t[-3000:]
        m = SAN_RE.search(t)
        if m:
            return "violation", "sanitizer report: " + m.group(1)
        if self.rc is not None and self.rc < 0:
            s = -self.rc
            if s in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
                return "error", "worker killed by signal %d" % s
            return "violation", "process died with signal %s" % signal.Signals(s).name
        return "violation", "process terminated unexpectedly with exit status %s" % self.rc


def load_known():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return {"findings": []}


def main():
    pid = sys.argv[1]
    tier = "quick"
    replay = None
    rest = sys.argv[2:]
    while rest:
        a = rest.pop(0)
        if a == "--replay":
            replay = json.load(open(rest.pop(0)))
        elif a in ("quick", "thorough"):
            tier = a
    if "VERIF_TIER" in os.environ and not sys.argv[2:]:
        tier = os.environ["VERIF_TIER"]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    if replay:
        seed, tier = replay["seed"], replay["tier"]
    cfg = dict(CHECKS[pid]); cfg["id"] = pid
    t0 = time.time()
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev_dir, "replays"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="run.%s." % pid, dir=os.environ.get("DW_TMP") or None)
    rc = 3
    try:
        rc = run_check(cfg, pid, tier, seed, scratch, ev_dir, t0, replay)
    except CheckError as e:
        log("CHECK-ERROR property=%s %s" % (pid, e))
        rc = 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        for v in VARIANTS:
            p = os.path.join(BUILD, "bin", "%s.%s.%d" % (pid, v, os.getpid()))
            if os.path.exists(p):
                os.unlink(p)
    sys.exit(rc)


def run_check(cfg, pid, tier, seed, scratch, ev_dir, t0, replay):
    variants = cfg.get("variants_thorough" if tier == "thorough" else "variants", cfg.get("variants", ["asan"]))
    if replay:
        variants = [replay["variant"]]
    with ThreadPoolExecutor(2) as ex:
        exes = dict(zip(variants, ex.map(lambda v: build(cfg, v), variants)))
    t_build = time.time() - t0
    nsh = cfg.get("shards", NCPU)
    timeout = cfg.get("timeout", 600 if tier == "quick" else 7200)
    stall = 60 if tier == "quick" else 300
    jobs = []
    for v in variants:
        for s in range(nsh):
            omp = cfg.get("omp", [1, 2, 3, 4])
            jobs.append((v, s, omp[s % len(omp)]))
    def mk(v, s, omp, only=None, stall=stall):
        return Worker(exes[v], v, cfg, seed, tier, s, nsh, scratch, omp, timeout, only, stall)
    if replay:
        w = mk(replay["variant"], replay["shard"], replay["omp"], replay.get("only")).run()
        st, d = w.verdict()
        if st == "ok":     # depends on what ran before: repeat the whole shard
            w = mk(replay["variant"], replay["shard"], replay["omp"]).run()
            st, d = w.verdict()
        log("replay:", st, d or "")
        for x in (w.result or {}).get("violations", []):
            log("  ", x["key"], "--", x["msg"])
        log(w.errtext())
        return 0 if st == "ok" else 1
    with ThreadPoolExecutor(cfg.get("parallel", NCPU)) as ex:
        workers = list(ex.map(lambda j: mk(*j).run(), jobs))

    viol = []      # (key, msg, worker)
    errors = []
    hangs = []
    for w in workers:
        st, d = w.verdict()
        if st == "ok":
            continue
        if st == "error":
            errors.append(d)
        elif st == "hang":
            hangs.append(w)
        elif d is None:
            for x in w.result["violations"]:
                viol.append((x["key"], x["msg"], w, x.get("case")))
        else:
            case = w.curcase[0] if w.curcase else None
            key = "crash:" + (w.curcase[1].split("|")[0] if w.curcase else "?")
            viol.append((key, d + " during case " + str(w.curcase), w, case))
    workers = [w for w in workers if w not in hangs]
    # No progress may mean a slow machine: the same work again, with more patience.  A worker whose threads
    # all slept through the whole time is deadlocked either way.
    def again(w):
        return w if w.asleep else mk(w.variant, w.shard, w.omp, stall=2.5 * stall).run()
    with ThreadPoolExecutor(NCPU) as ex:
        for w2 in ex.map(again, hangs):
            st, d = w2.verdict()
            case = w2.curcase[0] if w2.curcase else None
            name = w2.curcase[1].split("|")[0] if w2.curcase else "?"
            workers.append(w2)
            if st == "hang":
                viol.append(("hang:" + name, ("deadlock" if w2.asleep else "does not finish") + ": case %s" % (w2.curcase,), w2, case))
            elif st == "violation" and d is None:
                viol.extend((x["key"], x["msg"], w2, x.get("case")) for x in w2.result["violations"])
            elif st == "violation":
                viol.append(("crash:" + name, str(d) + " during case " + str(w2.curcase), w2, case))
            elif st == "error":
                errors.append(d)
    # aggregate what was observed
    ev = {"evaluations": 0, "counters": {}, "samples": []}
    sigs = set()
    for w in workers:
        r = w.result
        if not r:
            continue
        ev["evaluations"] += r.get("cases", 0)
        for k, n in r.get("counters", {}).items():
            if k.startswith("max:"):
                ev["counters"][k] = max(ev["counters"].get(k, 0), n)
            else:
                ev["counters"][k] = ev["counters"].get(k, 0) + n
        sigs.update(r.get("sigs", []))
        if len(ev["samples"]) < 6:
            ev["samples"] += r.get("samples", [])[:2]
    known = [f for f in load_known().get("findings", []) if f.get("property") == pid]
    seen_known = {}
    fresh = []
    for v in viol:
        for f in known:
            if f.get("key") and re.fullmatch(f["key"], v[0]):
                seen_known.setdefault(f["key"], f)
                break
        else:
            fresh.append(v)
    for f in known:
        # a listed finding is reported whether or not this run happened to hit it
        log("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {"evaluations": ev["evaluations"], "distinct_nontrivial": len(sigs), "rule": cfg["rule"],
                     "samples": ev["samples"][:6], "observed": ev["counters"],
                     "variants": variants, "workers": len(workers), "build_s": round(t_build, 1)},
        "assumptions": cfg.get("assumptions", []),
        "violations": len(fresh), "wall_s": round(time.time() - t0, 2)}
    json.dump(evidence, open(os.path.join(ev_dir, pid + ".json"), "w"), indent=1)
    log("%s %s seed=%d: %d evaluations, %d distinct, build %.1fs, total %.1fs" % (pid, tier, seed, ev["evaluations"], len(sigs), t_build, time.time() - t0))
    log("observed: " + ", ".join("%s=%d" % kv for kv in sorted(ev["counters"].items())))
    if fresh:
        shown = {}
        for key, msg, w, case in fresh:
            if key in shown:
                continue
            shown[key] = 1
            if len(shown) > 5:
                break
            rp = os.path.join(ev_dir, "replays", "%s-%s-%d-%s-%s.json" % (pid, w.variant, seed, w.shard, case if case is not None else "x"))
            json.dump({"property": pid, "seed": seed, "tier": tier, "variant": w.variant, "shard": w.shard, "omp": w.omp,
                       "only": case, "key": key, "msg": msg, "report": w.errtext(),
                       "how": "python3 /verif/check.py %s --replay %s" % (pid, rp)}, open(rp, "w"), indent=1)
            log("  %s: %s" % (key, msg))
            log("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        raise CheckError("; ".join(str(e) for e in errors[:3]))
    need = cfg.get("min_evals", 1)
    if ev["evaluations"] < need or len(sigs) < cfg.get("min_distinct", 2):
        raise CheckError("too little observed: %d evaluations" % ev["evaluations"])
    for c in cfg.get("require", []):
        if ev["counters"].get(c, 0) <= 0:
            raise CheckError("monitor '%s' observed nothing" % c)
    return 0


if __name__ == "__main__":
    main()
