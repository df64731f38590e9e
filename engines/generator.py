"""C21: the generator, run on databases whose content is known, must yield a library that conforms to them."""
import concurrent.futures as cf, os, random, re, shutil, sys, tempfile, unicodedata
from common import *
import ucddb

RULE = ("Databases: Unicode 16.0.0, past versions (15.0.0, 3.2.0 from CPython), random consistent variations (classes relabelled, characters removed and added, new canonical and compatibility "
        "mappings of every shape, exclusions, CJK variants), written as UCD files with varying range splits; the generator runs on each with the network replaced by these files; the library is built from its tables and every "
        "database-facing monitor (C01 C02 C04 C05 C07 C08 C09 C10) judges it against that database; the conformance tests it wrote are compiled and compared with the rows of the database's test file. Non-trivial as in C01; every code point is looked up for each database.")
PROPS_QUICK = ["C05", "C04", "C01", "C02", "C08", "C10", "C07", "C09"]

def generate(work, name, db, seed):
    """runs the script on the database; returns (ok, tables path or message)"""
    d = os.path.join(work, "gen")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(REPO, os.path.join(d, "crate"), ignore=shutil.ignore_patterns("target", ".git"))
    script = os.path.join(d, "crate", "scripts", "unicode.py")
    src = open(script, encoding="utf-8").read()
    v = "%d.%d.%d" % db.version
    new, n = re.subn(r"""(?m)^(\s*UNICODE_VERSION\s*=\s*)(["'])\d+\.\d+\.\d+\2""", lambda m: m.group(1) + m.group(2) + v + m.group(2), src)
    if n == 1:
        open(script, "w", encoding="utf-8").write(new)
    else:
        db.version = (16, 0, 0)
    ucd = os.path.join(d, "ucd")
    db.ucdfiles(ucd, random.Random(seed))
    db.datafile(os.path.join(d, "data.txt"))
    out = os.path.join(d, "out")
    os.makedirs(out)
    old = os.path.join(d, "crate", "src", "tables.rs")
    before = os.stat(old)
    rc, o, e, sec = sh([sys.executable, os.path.join(HERE, "engines", "genrun.py"), script, ucd], cwd=out, timeout=300)
    found = [os.path.join(p, f) for p, _, fs in os.walk(out) for f in fs if f == "tables.rs"]
    if rc != 0:
        return False, "exit %s: %s" % (rc, (o + e)[-1500:]), sec
    if found:
        os.replace(found[0], old)
    elif os.stat(old).st_mtime_ns == before.st_mtime_ns:
        return False, "no tables.rs written", sec
    try:
        urls = open(os.path.join(out, "fetched.log")).read().split()
    except OSError:
        urls = []
    bad = [u for u in urls if v not in u]
    if n == 1 and bad and urls:
        return False, "fetched %s for version %s" % (bad[0], v), sec
    return True, os.path.join(d, "crate"), sec

TESTS_MAIN = """#[path = "%s"] mod t;
fn main() {
    for x in t::NORMALIZATION_TESTS {
        println!("{}", [x.source, x.nfc, x.nfd, x.nfkc, x.nfkd].map(|s| s.chars().map(|c| format!("{:04X}", c as u32)).collect::<Vec<_>>().join(" ")).join(";"));
    }
}
"""
def written_tests(work):
    """the conformance tests the script wrote, as the compiler reads them, against the rows of the database's NormalizationTest.txt"""
    d = os.path.join(work, "gen")
    found = [os.path.join(p, f) for p, _, fs in os.walk(os.path.join(d, "out")) for f in fs if f == "normalization_tests.rs"]
    path = found[0] if found else os.path.join(d, "crate", "tests", "data", "normalization_tests.rs")
    main = os.path.join(d, "tests_main.rs")
    open(main, "w").write(TESTS_MAIN % path)
    rc, o, e, sec = sh(["rustc", "-A", "warnings", "--edition", "2021", "-o", os.path.join(d, "tests_main"), main], timeout=300)
    if rc == "timeout":
        raise NoAnswer("rustc timed out on the generated tests")
    if rc != 0:
        return 0, ("compile", "a list of tests", e[-1500:])
    rc, o, e, sec = sh([os.path.join(d, "tests_main")], timeout=60)
    want = [";".join(x.strip() for x in l.split("#")[0].split(";")[:5]) for l in open(os.path.join(d, "ucd", "NormalizationTest.txt"), encoding="utf-8") if l.split("#")[0].count(";") >= 5]
    got = o.split("\n")[:-1]
    if rc == 0 and got == want:
        return len(want), None
    i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
    return 0, ("generated conformance tests", want[i] if i < len(want) else "no more tests (%d)" % len(want), got[i] if i < len(got) else "no more tests (%d)" % len(got))

def build_against(work, crate):
    h = os.path.join(work, "harness")
    if not os.path.isdir(h):
        shutil.copytree(os.path.join(HERE, "harness"), h, ignore=shutil.ignore_patterns("target"))
        t = open(os.path.join(h, "Cargo.toml")).read()
        assert t.count('path = "/repo"') == 1
        open(os.path.join(h, "Cargo.toml"), "w").write(t.replace('path = "/repo"', 'path = "%s"' % crate))
    return sh(["cargo", "build", "--offline", "--locked", "--release"], cwd=h, env={"CARGO_TARGET_DIR": os.path.join(work, "target")}, timeout=400)

def judge(run, work, db, props, scale, engine):
    data = os.path.join(work, "gen", "data.txt")
    for p in props:
        cmd = [os.path.join(work, "target", "release", "mon"), p, "--data", data, "--seed", str(run.seed), "--tier", "quick", "--scale", str(scale)]
        rc, o, e, sec = sh(cmd, timeout=400)
        stats = dict(l.split("\t")[1:3] for l in o.split("\n") if l.startswith("STAT\t"))
        viols = [l.split("\t", 1)[1] for l in o.split("\n") if l.startswith("VIOL\t")]
        for v in viols:
            try:
                v = json.loads(v)
            except Exception:
                v = {"raw": v[:1000]}
            v["database"] = db.name
            v["judged_by"] = p
            run.violation(engine, **v)
        if not viols and not re.search(r"(?m)^DONE", o):
            if isinstance(rc, int) and rc < 0 and -rc in (4, 6, 7, 8, 11):
                run.violation(engine, database=db.name, judged_by=p, op="crash", expected="an answer", got="signal %d" % -rc, report=e[-2000:])
            else:
                raise NoAnswer("%s: %s\n%s%s" % (" ".join(cmd), rc, o[-1000:], e[-2000:]))
        run.cov["evaluations"] += int(stats.get("evaluations", 0))
        run.cov["distinct_nontrivial"] += int(stats.get("distinct_nontrivial", 0))
        run.engine("%s judged by %s" % (db.name, p), sec, observed={k: int(stats[k]) for k in ("evaluations", "distinct_nontrivial") if k in stats})
        if viols:
            return

def databases(seed, thorough):
    base = ucddb.DB.load(DATA)
    yield base, 0.15
    yield base.mutate(seed * 1000 + 1), 0.15
    old = ucddb.DB.cpython(unicodedata.ucd_3_2_0, (3, 2, 0), base)
    yield old, 0.05
    d15 = ucddb.DB.cpython(unicodedata, (15, 0, 0), base)
    if thorough:
        yield d15, 0.3
        for i in range(2, 16):
            yield (base if i % 2 else d15).mutate(seed * 1000 + i), 0.1
        yield old.mutate(seed * 1000 + 99), 0.1
    else:
        yield d15.mutate(seed * 1000 + 2), 0.05

def c21(run):
    run.cov["rule"] = RULE
    run.assumptions.append("the facts in data/ucd16.txt are those of Unicode 16.0.0; CPython's unicodedata is right about 15.0.0 and 3.2.0; the variations are consistent (checked by an independent normaliser in Python: exclusions closed, mappings ordered)")
    run.assumptions.append("a variation for which the generator itself reports that perfect hashing failed is replaced by another; four failures in a row are a violation")
    build_mon("release")
    work = tempfile.mkdtemp(prefix="vgen-")
    try:
        for i, (db, scale) in enumerate(databases(run.seed, run.thorough)):
            if time.time() - run.t0 > (800 if run.thorough else 500):
                run.engine("time is up before " + db.name, 0)
                break
            ok, crate, sec = generate(work, db.name, db, run.seed * 77 + i)
            run.engine("generate " + db.name, sec, observed={"canonical": len(db.canon), "compatibility": len(db.compat), "excluded": len(db.excl), "classes": len(db.ccc), "marks": len(db.mark), "variants": len(db.variants), "assigned": len(db.public)})
            run.sample("%s: %d canonical, %d compatibility mappings, %d exclusions, %d non-starters" % (db.name, len(db.canon), len(db.compat), len(db.excl), len(db.ccc)))
            if not ok:
                run.violation("generator", database=db.name, op="generate", expected="tables.rs", got=crate)
                break
            n, bad = written_tests(work)
            run.engine("conformance tests written for " + db.name, 0, observed={"tests_compared": n})
            if bad:
                run.violation("generator", database=db.name, op=bad[0], expected=bad[1], got=bad[2])
                break
            rc, o, e, sec = build_against(work, crate)
            if rc == "timeout":
                raise NoAnswer("build with generated tables timed out")
            if rc != 0:
                run.violation("generator", database=db.name, op="compile", expected="a library", got=e[-2500:])
                break
            run.engine("build " + db.name, sec)
            judge(run, work, db, PROPS_QUICK, scale, "generator + mon")
            if run.violations:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
