"""C16, C17, C18: sanitizers, Miri, and the configuration matrix."""
import concurrent.futures as cf, os, random, re, threading, time
from common import *
PROBE = os.path.join(HERE, "probe")
OPS = ["NFD", "NFKD", "NFC", "NFKC", "cjk_compat_variants", "stream_safe", "quick checks", "authoritative checks",
       "character functions", "compose of neighbours", "Display, clone, nth", "size_hint and stacking"]
UB = re.compile(r"error: (Undefined Behavior: [^\n]*|the evaluated program (?:deadlocked|leaked memory)[^\n]*|Data race[^\n]*|abnormal termination[^\n]*)")
PANIC = re.compile(r"panicked at ([^\n]*)\n?([^\n]*)")

def cases(b, seed, count, mx=40, long=0):
    cmd = [b, "cases", "--data", DATA, "--seed", str(seed), "--count", str(count), "--max", str(mx)] + (["--long", str(long)] if long else [])
    return sh(cmd, ok=[0], timeout=200)[1].strip("\n").split("\n")

def split(lines, k):
    return [lines[i::k] for i in range(k)]

# ------------------------------------------------------------------ Miri
def miri_setup(target, kind=""):
    env = miri_env(kind)
    return sh(["cargo", "+nightly", "miri", "setup", "--target", target], cwd=PROBE, env=env, timeout=500, ok=[0])[3]

def miri_env(kind, flags=""):
    return {"CARGO_TARGET_DIR": os.path.join(TARGET, "miri" + kind), "MIRIFLAGS": ("-Zmiri-disable-isolation " + flags).strip()}

def miri_cmd(binname, target, features="std,hosted"):
    return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--no-default-features", "--features", features, "--bin", binname, "--target", target]

def miri_lines(lines, target, flags="", features="std,hosted", budget=60, kind="", par=None):
    """runs the lines under Miri in parallel processes within a time budget; returns [(line, result)], problems"""
    env = miri_env(kind, flags)
    # build once, so that the parallel runs do not wait for each other
    r = sh(miri_cmd("hosted", target, features), cwd=PROBE, env=env, stdin=b"T 61\n", timeout=500)
    if r[0] != 0:
        m = UB.search(r[2]) or PANIC.search(r[2])
        if m:
            return [], [("T 61", m.group(0), r[2][-3000:])]
        raise NoAnswer("miri: " + r[2][-3000:])
    par = par or CORES
    out, probs = [], []
    def one(ls):
        rc, o, e, s = sh(miri_cmd("hosted", target, features), cwd=PROBE, env=env, stdin=("\n".join(ls) + "\n").encode(), timeout=budget)
        res = [x for x in o.split("\n") if x]
        pairs = list(zip(ls, [x for x in res if x != "END"]))
        prob = None
        if rc == "timeout":
            # a line in the making when time ran out is not judged
            pairs = [p for p in pairs if complete(p)]
        elif rc != 0 or "END" not in res:
            m = UB.search(e) or PANIC.search(e)
            bad = ls[len(pairs)] if len(pairs) < len(ls) else "?"
            if m:
                prob = (bad, m.group(0), e[-4000:])
            else:
                raise NoAnswer("miri ended with %s: %s" % (rc, e[-3000:]))
        return pairs, prob
    with cf.ThreadPoolExecutor(par) as ex:
        for p, q in ex.map(one, split(lines, par)):
            out += p
            if q:
                probs.append(q)
    return out, probs

def complete(p):
    n = len(p[1].split(" "))
    return n == (1 if p[0][0] in "SP" else len(OPS)) and all(len(x) == 16 for x in p[1].split(" "))

def c16(run):
    import plans
    run.cov["rule"] = plans.RULES["text"] + " Judged here: no panic, no sanitizer/Miri report, no abnormal end, termination within bounds, only Unicode scalar values in every output."
    b, sec = build_mon("checked")
    run.engine("build checked (overflow checks, debug assertions, library UB checks)", sec)
    run_mon(run, b, "checked")
    if run.violations:
        return
    # unoptimised, on a small stack: depth of recursion that optimised builds may turn into loops
    d, sec = build_mon("dev")
    run.engine("build unoptimised", sec)
    run_mon(run, d, "dev", ["--only", "long-runs", "--stack-kib", "2048"])
    if run.violations:
        return
    a, sec = build_mon("asan")
    run.engine("build AddressSanitizer", sec)
    run_mon(run, a, "asan")
    if run.violations:
        return
    t0 = time.time()
    lines = ["T %X" % c for c in rng_scalars(run.seed, 600 if run.thorough else 160)] + cases(b, run.seed, 6000 if run.thorough else 700, 8)
    random.Random(run.seed).shuffle(lines)
    confs = [("", "std,hosted", 80)] if not run.thorough else [("", "std,hosted", 180), ("-Zmiri-tree-borrows", "hosted", 120), ("-Zmiri-symbolic-alignment-check -Zmiri-strict-provenance", "std,hosted", 120)]
    for flags, feat, budget in confs:
        out, probs = miri_lines(lines, HOST, flags, feat, budget)
        for l, m, rep in probs:
            run.violation("Miri " + flags, op="undefined behaviour or panic", input=l[2:], got=m, expected="no report", report=rep)
        run.cov["evaluations"] += len(out) * len(OPS)
        run.cov["distinct_nontrivial"] += len(set(x[0] for x in out))
        run.engine("Miri " + flags, time.time() - t0, texts_completed=len(out), operations_each=len(OPS), reports=len(probs))
        if not out and not probs:
            raise NoAnswer("Miri finished no case")
        t0 = time.time()
    if run.thorough and not run.violations:
        m, sec = build_mon("msan")
        run.engine("build MemorySanitizer", sec)
        run.tier = "quick"
        run_mon(run, m, "msan", merge=False)
        run.tier = "thorough"

def rng_scalars(seed, n):
    r = random.Random(seed)
    heads = [l.split(";") for l in open(DATA) if l[0] in "cdkv"]
    o = [int(r.choice(heads)[1], 16) for _ in range(n // 2)]
    while len(o) < n:
        c = r.randrange(0x110000)
        if not 0xD800 <= c < 0xE000:
            o.append(c)
    return o

# ------------------------------------------------------------------ C17
def c17(run):
    run.cov["rule"] = ("Cases: rounds of threads transforming a pool of texts concurrently, sharing iterators by reference and handing over half-consumed ones; several iterators "
                       "advanced in random turns on one thread with unrelated calls in between; calls from within callbacks, sources and thread-local destructors; repeated calls after random histories "
                       "and after look-alike arguments; first use of everything by four threads at once in thousands of fresh processes; whether each iterator type is Send and Sync. Non-trivial and distinct as for the text properties; "
                       "every result is compared with the sequential model.")
    b, sec = build_mon("release")
    run.engine("build release", sec)
    for i in range(6 if not run.thorough else 30):
        # several processes: first use of everything happens concurrently in each
        run_mon(run, b, "release", ["--scale", "0.05"] if i else [], merge=True)
        run.seed += 1000
        if run.violations:
            break
    run.seed -= 1000 * (i + 1)
    if run.violations:
        return
    # first use by several threads at once, in many processes
    def first(binary, name, n, secs):
        t0 = time.time()
        rc, o, e, _ = sh([binary, "first", "many", str(run.seed), str(n), str(secs)], timeout=secs + 60)
        m = re.search(r"(?m)^BAD\t([^\t]*)\t([^\t]*)\t(.*)$", o)
        if m:
            run.violation(name, op="concurrent first use", got=(m.group(2) + ": " + m.group(3))[:2500], expected="what a later sequential call gives, no race", command="mon first " + m.group(1))
            return False
        m = re.search(r"(?m)^PROCESSES\t(\d+)", o)
        if rc != 0 or not m:
            raise NoAnswer("first use: %s %s" % (rc, (o + e)[-2000:]))
        run.cov["evaluations"] += int(m.group(1)) * 96
        run.engine(name, time.time() - t0, processes=int(m.group(1)), threads_each=4, calls_each=24)
        return True
    if not first(b, "first use in fresh processes", *((60000, 120) if run.thorough else (8000, 15))):
        return
    t, sec = build_mon("tsan")
    run.engine("build ThreadSanitizer", sec)
    if not first(t, "first use in fresh processes, ThreadSanitizer", *((12000, 60) if run.thorough else (2000, 12))):
        return
    run_mon(run, t, "tsan", ["--scale", "0.3" if run.thorough else "0.1"])
    if run.violations:
        return
    # Miri: data-race detector, weak memory, many schedules
    n = 64 if run.thorough else 8
    t0 = time.time()
    lo = run.seed * 1000 % 100000
    env = miri_env("", "-Zmiri-many-seeds=%d..%d -Zmiri-preemption-rate=0.05" % (lo, lo + n))
    cmd = miri_cmd("threads", HOST) + ["--", str(run.seed)]
    rc, o, e, s = sh(cmd, cwd=PROBE, env=env, timeout=700)
    done = o.count("THREADS compared")
    m = UB.search(e) or PANIC.search(e)
    if m:
        run.violation("Miri, many schedules", op="data race or undefined behaviour", got=m.group(0), expected="no report", report=e[-4000:], schedules="%d..%d" % (lo, lo + n))
    elif "MISMATCH" in o:
        run.violation("Miri, many schedules", op="results under concurrency", got=o[:1000], expected="those of sequential use", schedules="%d..%d" % (lo, lo + n))
    elif rc != 0 and rc != "timeout":
        raise NoAnswer("miri threads: %s %s" % (rc, e[-3000:]))
    elif done == 0:
        raise NoAnswer("miri threads: no schedule finished")
    run.cov["evaluations"] += sum(int(x) for x in re.findall(r"compared=(\d+)", o))
    run.engine("Miri race detector", time.time() - t0, schedules_completed=done)

# ------------------------------------------------------------------ C18
def build_probe(name, profile, features, extra=(), nightly=False, rustflags="", binname="hosted"):
    env = {"CARGO_TARGET_DIR": os.path.join(TARGET, "probe-" + name), "RUSTFLAGS": rustflags}
    cmd = ["cargo"] + (["+nightly"] if nightly else []) + ["build", "--offline", "--locked", "--profile", profile, "--no-default-features", "--features", features, "--bin", binname] + list(extra)
    sh(cmd, cwd=PROBE, env=env, timeout=600, ok=[0])
    d = {"dev": "debug"}.get(profile, profile)
    t = "i686-unknown-linux-gnu/" if binname == "bare" else ""
    return os.path.join(TARGET, "probe-" + name, t + d, binname)

BUILDSTD = ["-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem"]
BARE = ["--target", "i686-unknown-linux-gnu"] + BUILDSTD
BAREFLAGS = "-C link-arg=-nostdlib -C link-arg=-static -C link-arg=-nostartfiles -C relocation-model=static -C panic=abort"

def bare_mips(profile):
    """a program for a big-endian 32-bit MIPS processor, run by the machine simulator in the harness"""
    t = "mips-mti-none-elf"
    build_probe("mips", profile, "bare", ["--target", t] + BUILDSTD, True, "-C panic=abort", "bare")
    return [os.path.join(TARGET, "release", "mon"), "mips", os.path.join(TARGET, "probe-mips", t, profile, "bare")]

def bare_wasm(profile):
    """a WebAssembly program, run by node"""
    t = "wasm32-wali-linux-musl"
    build_probe("wasm", profile, "bare", ["--target", t] + BUILDSTD, True, "-C panic=abort -C link-self-contained=no -C link-arg=--no-entry -C link-arg=--export=run", "bare")
    return ["node", os.path.join(HERE, "engines", "wasm.js"), os.path.join(TARGET, "probe-wasm", t, profile, "bare.wasm")]

def native_lines(binary, lines, timeout):
    """returns {line index: result}, problem"""
    def one(k, ls):
        rc, o, e, s = sh(binary if isinstance(binary, list) else [binary], stdin=("\n".join(ls) + "\n").encode(), timeout=timeout)
        res = o.split("\n")
        ended = "END" in res
        good = []
        for x in res:
            if x == "END" or x.startswith("PANIC") or x == "":
                break
            good.append(x)
        pr = None
        if not ended:
            bad = ls[len(good)] if len(good) < len(ls) else "?"
            m = PANIC.search(e) or re.search(r"PANIC [^\n]*", o)
            if m or (isinstance(rc, int) and (rc < 0 or rc == 101)):
                pr = (bad, m.group(0) if m else "ended with %s" % rc)
            elif rc == "timeout":
                raise NoAnswer("%s: time out" % binary)
            else:
                raise NoAnswer("%s: ended with %s: %s" % (binary, rc, (o[-200:] + e)[-1500:]))
        return good, pr
    par = CORES
    out, probs = {}, []
    with cf.ThreadPoolExecutor(par) as ex:
        for k, (good, pr) in enumerate(ex.map(lambda a: one(*a), enumerate(split(lines, par)))):
            for j, x in enumerate(good):
                out[k + j * par] = x
            if pr:
                probs.append(pr)
    return out, probs

# boundary values of the pair lookup's arithmetic
EXTREMES = [0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xABFF, 0xAC00, 0xD7A3, 0xD7FF, 0xE000, 0xFEFF, 0xFF00, 0xFFF0,
            0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x20000, 0xE01EF, 0x10FFFE, 0x10FFFF]

# other platforms, executed by Miri
FOREIGN = {
    "s390x-unknown-linux-gnu": "64-bit big-endian", "aarch64-unknown-linux-gnu": "64-bit Arm", "x86_64-pc-windows-gnu": "64-bit Windows",
    "mips-unknown-linux-gnu": "32-bit big-endian", "i686-unknown-linux-gnu": "32-bit x86", "riscv64gc-unknown-linux-gnu": "64-bit RISC-V",
    "aarch64-apple-darwin": "64-bit Arm, macOS", "armv7-unknown-linux-gnueabihf": "32-bit Arm",
}

def c18(run):
    t = run.thorough
    run.cov["rule"] = ("Cases: random structured texts (every public operation on each, logged as one hash per operation), long texts, and all scalars in blocks (logged as one hash per block). "
                       "One evaluation: one logged result of one configuration compared with that of the reference (std, optimised, 64-bit little-endian). Distinct non-trivial: distinct texts and blocks.")
    b, sec = build_mon("release")
    run.engine("build release", sec)
    lines = ["S %X %X" % (x, x + 64) for x in range(0, 0x30000, 64)] + ["S %X %X" % (x, x + 4096) for x in range(0x30000, 0x110000, 4096)]
    firsts = EXTREMES + rng_scalars(run.seed + 7, 60 if t else 16)
    lines += ["P %X %X %X" % (a, x, x + 4096) for a in firsts for x in range(0, 0x110000, 4096)]
    nscal = len(lines)
    # runs and stretches of every shape around the sizes where buffers grow and counters wrap
    sizes = [20, 33, 65, 130, 258, 300, 515] if not t else [17, 20, 33, 65, 100, 130, 258, 300, 515, 770, 1026, 2050]
    mid = [l for n in sizes for l in cases(b, run.seed + n, 16 if not t else 32, 40, n)]
    lng = cases(b, run.seed + 1, 64 if t else 16, 40, 5000)
    lines += mid + lng
    nlong = len(lines)
    lines += cases(b, run.seed, 300000 if t else 40000, 60)
    lines += cases(b, run.seed + 2, 16, 40, 70000)
    r = random.Random(run.seed)
    lines += ["T %X %X %X" % tuple(rng_scalars(r.random(), 3)) for _ in range(2000)]
    confs = [
        ("std, release (reference)", lambda: build_probe("ref", "release", "std,hosted"), None),
        ("no std feature, release", lambda: build_probe("nostd", "release", "hosted"), None),
        ("std, debug (overflow checks, debug assertions)", lambda: build_probe("debug", "dev", "std,hosted"), None),
        ("no std feature, opt-level s, overflow checks, panic=abort", lambda: build_probe("small", "small", "hosted"), None),
        ("no std anywhere: freestanding 32-bit x86", lambda: build_probe("bare", "bare", "bare", BARE, True, BAREFLAGS, "bare"), None),
        ("no std anywhere: freestanding 32-bit x86, debug", lambda: build_probe("bared", "baredebug", "bare", BARE, True, BAREFLAGS, "bare"), None),
        ("no std anywhere: big-endian 32-bit MIPS (simulated machine)", lambda: bare_mips("bare"), 2000 if not t else 40000),
        ("no std anywhere: WebAssembly (node)", lambda: bare_wasm("bare"), None),
    ]
    confs.append(("std, LTO, target-cpu=native, panic=abort", lambda: build_probe("lto", "lto", "std,hosted", rustflags="-C target-cpu=native"), None if t else 12000))
    if t:
        confs += [
            ("no std anywhere: big-endian 32-bit MIPS (simulated machine), debug", lambda: bare_mips("baredebug"), 500),
            ("no std anywhere: WebAssembly (node), debug", lambda: bare_wasm("baredebug"), 8000),
            ("no std feature, opt-level 1, debug assertions", lambda: build_probe("o1", "o1", "hosted"), None),
            ("std, nightly compiler, release", lambda: build_probe("nightly", "release", "std,hosted", nightly=True), None),
        ]
    # builds in parallel; the Miri sysroot meanwhile
    miri_targets = list(FOREIGN)[:None if t else 3]
    t0 = time.time()
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(c[1]) for c in confs]
        ms = [ex.submit(miri_setup, m, "-" + m) for m in miri_targets]
        bins = [f.result() for f in fs]
        for m in ms:
            m.result()
    run.engine("builds", time.time() - t0, configurations=len(confs) + len(miri_targets))
    def compare(name, got, probs, ref):
        n = 0
        for l, m in [(p[0], p[1]) for p in probs]:
            run.violation(name, op="panic in this configuration only", input=l[2:], got=m, expected="a result")
        for i, g in got.items():
            w = ref.get(i)
            if w is None:
                continue
            n += 1 if lines[i][0] in "SP" else len(OPS)
            if g != w and len(run.violations) < 20:
                if lines[i][0] in "SP":
                    run.violation(name, op=("a scalar in " if lines[i][0] == "S" else "compose on ") + lines[i], input=lines[i], got=g, expected=w, configurations="std, release (reference) vs " + name)
                else:
                    ops = [OPS[k] for k, (x, y) in enumerate(zip(g.split(" "), w.split(" "))) if x != y]
                    run.violation(name, op=", ".join(ops), input=lines[i][2:2000], got=g, expected=w, configurations="std, release (reference) vs " + name)
        return n
    t0 = time.time()
    ref, probs = native_lines(bins[0], lines, 300)
    run.engine(confs[0][0], time.time() - t0, logged=len(ref))
    if probs:
        # the reference itself fails: reported by C16; here only if another configuration does not
        run.errors.append("the reference configuration panics: %s" % (probs[0],))
    for (name, _, few), bn in zip(confs[1:], bins[1:]):
        t0 = time.time()
        # unoptimised programs get the first part of the random texts
        sub = lines if not name.endswith("debug") and "debug (" not in name else lines[:nscal:3 if not t else 1] + lines[nscal:nlong + (25000 if not t else 100000)] + lines[-2000:]
        if few:
            sub = lines[:nscal if few > 1000 else nscal // 3] + (mid if few > 1000 else mid[:len(mid) // 2]) + lines[nlong:nlong + few] + lines[-2000 if few > 1000 else -200:]
            random.Random(run.seed).shuffle(sub)
        idx = {l: i for i, l in enumerate(lines)}
        got, probs = native_lines(bn, sub, 500)
        got = {idx[sub[i]]: x for i, x in got.items()}
        n = compare(name, got, probs if ref else [], ref)
        run.cov["evaluations"] += n
        run.engine(name, time.time() - t0, results_compared=n)
    # big-endian
    t0 = time.time()
    ends = [0, 0x300, 0xFFF0, 0x10000, 0x10FFF0]
    small = ["P %X %X %X" % (a, x, x + 16) for a in EXTREMES for x in ends]
    small += ["S %X %X" % (c, c + 1) for c in rng_scalars(run.seed, 12000 if t else 1600)] + [l for l in cases(b, run.seed + 3, 6000 if t else 800, 6)]
    random.Random(run.seed).shuffle(small)
    sref, probs = native_lines(bins[0], small, 300)
    want = {l: sref[i] for i, l in enumerate(small) if i in sref}
    def foreign(tg):
        res = []
        for feat in ["std,hosted"] + (["hosted"] if t else []):
            t0 = time.time()
            out, pr = miri_lines(small, tg, "-Zmiri-disable-validation -Zmiri-disable-stacked-borrows", feat, 200 if t else 60, kind="-" + tg, par=2 if t else 3)
            res.append((feat, out, pr, time.time() - t0))
        return tg, res
    with cf.ThreadPoolExecutor(4) as ex:
        done = list(ex.map(foreign, miri_targets))
    for tg, res in done:
        for feat, out, pr, sec in res:
            name = "Miri %s (%s), features %s" % (tg, FOREIGN[tg], feat)
            n = 0
            for l, g in out:
                if l in want:
                    n += 1 if l[0] in "SP" else len(OPS)
                    if want[l] != g and len(run.violations) < 20:
                        ops = [OPS[k] for k, (x, y) in enumerate(zip(g.split(" "), want[l].split(" "))) if x != y] if l[0] == "T" else ["one scalar" if l[0] == "S" else "compose"]
                        run.violation(name, op=", ".join(ops), input=l, got=g, expected=want[l])
            for l, m, rep in pr:
                run.violation(name, op="panic or undefined behaviour in this configuration only", input=l[2:], got=m, expected="a result", report=rep)
            if not out and not pr:
                raise NoAnswer("%s: no case finished" % name)
            run.cov["evaluations"] += n
            run.engine(name, sec, results_compared=n, texts=len(out))
    run.cov["distinct_nontrivial"] += len(set(lines)) + len(set(small))
    run.cov["samples"] += lines[nlong:nlong + 5] + lines[:2]
