import glob, json, os, re, resource, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
DATA = os.path.join(HERE, "data", "ucd16.txt")
KNOWN = os.path.join(HERE, "known_findings.tsv")
HOST = "x86_64-unknown-linux-gnu"
CORES = os.cpu_count() or 4

class NoAnswer(Exception):
    pass

def env_clean(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "MIRIFLAGS")) or k in ("CARGO_HOME",)}
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    if extra:
        e.update(extra)
    return e

def sh(cmd, cwd=None, env=None, timeout=600, stdin=None, ok=None):
    """runs to completion in its own process group; returns (rc, stdout, stderr, seconds)"""
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env_clean(env), stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        rc = "timeout"
    o, e = o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    if ok is not None and rc not in ok:
        raise NoAnswer("%s: exit %s\n%s" % (" ".join(cmd), rc, (o + e)[-4000:]))
    return rc, o, e, time.time() - t0

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.errors = []
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "engines": []}
        self.assumptions = []
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    @property
    def thorough(self):
        return self.tier == "thorough"
    def violation(self, engine, **kw):
        kw["engine"] = engine
        self.violations.append(kw)
    def engine(self, name, seconds, **kw):
        d = {"engine": name, "seconds": round(seconds, 1)}
        d.update(kw)
        self.cov["engines"].append(d)
    def sample(self, s):
        if len(self.cov["samples"]) < 25:
            self.cov["samples"].append(s)
    def finish(self):
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": "exploration", "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        ev["assumptions"] = self.assumptions
        if self.violations:
            ev["coverage"]["violation_details"] = self.violations[:10]
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for e in self.errors:
            print("ERROR: " + e, file=sys.stderr)
        if self.violations:
            p = os.path.join(HERE, "replays", "%s-%d.json" % (self.prop, self.seed))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "how": "python3 check.py %s --replay %s" % (self.prop, p), "violations": self.violations}, f, indent=1, ensure_ascii=False)
            for v in self.violations[:5]:
                print("  %s: %s" % (v.get("engine"), json.dumps({k: (x if len(str(x)) < 400 else str(x)[:400] + "...") for k, x in v.items() if k != "engine"}, ensure_ascii=False)))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        if self.errors:
            return 2
        print("%s held: %d executions judged, %d distinct non-trivial, %.1f s" % (self.prop, self.cov["evaluations"], self.cov["distinct_nontrivial"], time.time() - self.t0))
        return 0

# ------------------------------------------------------------------ the monitor binary
def build_mon(kind="release"):
    """kind: release | checked | dev | asan | tsan | msan"""
    t0 = time.time()
    cwd = os.path.join(HERE, "harness")
    if kind in ("release", "checked", "dev"):
        env = {"CARGO_TARGET_DIR": TARGET}
        sh(["cargo", "build", "--offline", "--locked", "--profile", kind], cwd=cwd, env=env, timeout=600, ok=[0])
        return os.path.join(TARGET, {"dev": "debug"}.get(kind, kind), "mon"), time.time() - t0
    if kind == "fuzz":
        rt = glob.glob("/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a")
        if not rt:
            raise NoAnswer("the compiler's fuzzer runtime is not installed")
        cov = ["level=4", "inline-8bit-counters", "pc-table", "trace-compares"]
        env = {"CARGO_TARGET_DIR": os.path.join(TARGET, kind),
               "RUSTFLAGS": " ".join(["-Cpasses=sancov-module"] + ["-Cllvm-args=-sanitizer-coverage-" + c for c in cov] + ["-Clink-arg=" + rt[-1], "-Clink-arg=-lstdc++"])}
        sh(["cargo", "+nightly", "build", "--offline", "--locked", "--profile", "release", "--features", "fuzz", "--target", HOST], cwd=cwd, env=env, timeout=600, ok=[0])
        return os.path.join(TARGET, kind, HOST, "release", "mon"), time.time() - t0
    san = {"asan": "address", "tsan": "thread", "msan": "memory"}[kind]
    env = {"CARGO_TARGET_DIR": os.path.join(TARGET, kind), "RUSTFLAGS": "-Zsanitizer=%s" % san + (" -Zsanitizer-memory-track-origins" if kind == "msan" else "")}
    cmd = ["cargo", "+nightly", "build", "--offline", "--locked", "--profile", "checked" if kind != "tsan" else "release", "--target", HOST]
    if kind in ("tsan", "msan"):
        cmd.append("-Zbuild-std")
    sh(cmd, cwd=cwd, env=env, timeout=800, ok=[0])
    return os.path.join(TARGET, kind, HOST, "checked" if kind != "tsan" else "release", "mon"), time.time() - t0

SAN_MARK = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|WARNING: MemorySanitizer: [^\n]*)")

def take_output(run, o, stats):
    """the monitors' lines: statistics, samples, known findings, violations, errors"""
    viols = []
    for l in o.split("\n"):
        f = l.split("\t", 2)
        if f[0] == "STAT":
            stats[f[1]] = stats.get(f[1], 0) + int(f[2])
        elif f[0] == "SAMPLE":
            run.sample(f[1])
        elif f[0] == "KNOWN":
            if f[1] not in run.known:
                run.known.append(f[1])
        elif f[0] == "VIOL":
            try:
                viols.append(json.loads(f[1]))
            except Exception:
                viols.append({"raw": l[:2000]})
        elif f[0] == "ERROR":
            run.errors.append(l)
    return viols

def run_mon(run, binary, name, args=(), timeout=780, prop=None, merge=True):
    sanitized = name not in ("release", "checked", "dev") and not name.startswith("coverage-guided")
    cmd = [binary, prop or run.prop, "--data", DATA, "--seed", str(run.seed), "--tier", run.tier, "--known", KNOWN] + (["--sanitized"] if sanitized else []) + list(args)
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1", "TSAN_OPTIONS": "halt_on_error=1:exitcode=66", "MSAN_OPTIONS": "exitcode=66"}
    rc, o, e, sec = sh(cmd, env=env, timeout=timeout)
    stats = {}
    viols = take_output(run, o, stats)
    done = "\nDONE" in o
    m = SAN_MARK.search(e)
    if m:
        i = e.find(m.group(1))
        viols.append({"op": "sanitizer", "got": m.group(1), "expected": "no report", "report": e[max(0, i - 200):i + 5000]})
    for v in viols:
        run.violation("mon (%s)" % name, **v)
    if not viols and not done:
        if isinstance(rc, int) and rc < 0 and -rc in (4, 6, 7, 8, 11):
            run.violation("mon (%s)" % name, op="crash", expected="an answer", got="killed by signal %d" % -rc, report=e[-3000:])
        else:
            raise NoAnswer("%s ended with %s and no verdict after %.0f s\n%s\n%s" % (" ".join(cmd), rc, sec, o[-1500:], e[-3000:]))
    if merge:
        run.cov["evaluations"] += stats.get("evaluations", 0)
        run.cov["distinct_nontrivial"] += stats.get("distinct_nontrivial", 0)
    stats.pop("seconds_x1000", None)
    run.engine("mon " + name, sec, exit=rc, **{"observed": stats})
    return viols

def fuzz(run, seconds):
    """coverage-guided workload: CORES processes sharing one corpus in a scratch directory"""
    import concurrent.futures as cf, shutil, tempfile
    b, sec = build_mon("fuzz")
    run.engine("build coverage-guided", sec)
    d = tempfile.mkdtemp(prefix="vfuzz-")
    seed = run.seed
    try:
        def one(i):
            cmd = [b, run.prop, "--data", DATA, "--seed", str(seed * 64 + i), "--tier", run.tier, "--known", KNOWN, "--fuzz", str(seconds), "--corpus", d]
            return sh(cmd, timeout=seconds + 200)
        t0 = time.time()
        with cf.ThreadPoolExecutor(CORES) as ex:
            outs = list(ex.map(one, range(CORES)))
        tot, cov = {}, 0
        for rc, o, e, _ in outs:
            viols = take_output(run, o, tot)
            for v in viols[:2]:
                run.violation("mon (coverage-guided)", **v)
            cov = max([cov] + [int(x) for x in re.findall(r"cov: (\d+)", e[-3000:])])
            if not viols and "\nDONE" not in o:
                raise NoAnswer("coverage-guided run ended with %s: %s %s" % (rc, o[-500:], e[-2000:]))
        units = len(os.listdir(d))
        run.cov["evaluations"] += tot.get("evaluations", 0)
        run.cov["distinct_nontrivial"] += tot.get("distinct_nontrivial", 0)
        run.engine("coverage-guided (libFuzzer)", time.time() - t0, processes=CORES, texts_judged=tot.get("evaluations", 0), texts_kept_for_new_behaviour=units, edges_covered_in_library_and_model=cov)
    finally:
        shutil.rmtree(d, ignore_errors=True)
