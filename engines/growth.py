"""C20: executed instructions, measured by valgrind, as the text grows."""
import concurrent.futures as cf, math, os, re, time
from common import *

OPS = {0: "NFD", 1: "NFKD", 2: "NFC", 3: "NFKC", 4: "cjk_compat_variants", 5: "stream_safe", 6: "is_nfd", 7: "is_nfkd", 8: "is_nfc", 9: "is_nfkc",
       10: "is_nfd_stream_safe", 11: "is_nfc_stream_safe", 12: "checks on normalised text", 13: "quick checks", 14: "clone and Display half-way",
       15: "stacked nfkd.stream_safe.nfc", 16: "size_hint at every step", 17: "stream-safe checks on safe text",
       18: "count, last, fold, max", 19: "jumping with nth and take"}
REFS = re.compile(r"I\s+refs:\s+([\d,]+)")

def refs(b, op, shape, n, seed, timeout):
    rc, o, e, s = sh(["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", b, "work", str(op), str(shape), str(n), str(seed)], timeout=timeout)
    m = REFS.search(e)
    if rc == "timeout":
        return None, "no end within %d s" % timeout
    if rc != 0 or not m:
        return None, "exit %s: %s" % (rc, (o + e)[-600:])
    return int(m.group(1).replace(",", "")), None

def c20(run):
    b, sec = build_mon("release")
    run.engine("build release", sec)
    rc, o, e, _ = sh([b, "work", "shapes"], ok=[0])
    shapes = {int(l.split("\t")[0]): l.split("\t")[1] for l in o.strip().split("\n")}
    sizes = [2048, 8192, 32768, 131072] + ([524288, 2097152] if run.thorough else [])
    jobs = [(op, s) for s in shapes for op in OPS]
    k = 100 if run.thorough else 24
    for i in range(k):
        shapes[100 + i] = "random pattern %d" % i
        for op in (OPS if run.thorough else ([0, 1, 2, 3] + [4 + (i + j * 5) % 16 for j in range(3)])):
            jobs.append((op, 100 + i))
    base = {}
    t0 = time.time()
    measured, worst, sat, per = 0, (0, ""), [], []
    CHECKS = {6, 7, 8, 9, 10, 11, 12, 13, 17}
    stop = []
    def one(op, s):
        prev = None
        # a check may answer early on one length and must read to the end on another (the tail decides): its allowance is
        # linear in what transforming this shape costs; a transformation always reads everything, its own history binds it
        linear = 4 * sum(max(trans[(s, o)], 0) for o in range(6)) / sizes[0] if op in CHECKS else 0
        rows = []
        for n in sizes:
            if len(stop) >= 4:
                break
            # an instruction budget far above linear, enforced as a time limit of the (slower) measurement
            w, err = refs(b, op, s, n, run.seed, 120)
            if w is None:
                stop.append(1)
                return rows, ("cannot finish", n, err)
            w -= base[(s, n)]
            rows.append((n, w))
            if prev is not None:
                lim = 7 * max(prev, 0) + 400_000 + linear * n
                if w > lim:
                    stop.append(1)
                    return rows, ("growth", n, "%d instructions for %d characters after %d for %d: factor %.1f (linear: 4)" % (w, n, prev, n // 4, w / max(prev, 1)))
            prev = w
        return rows, None
    with cf.ThreadPoolExecutor(CORES) as ex:
        for (s, n), r in zip([(s, n) for s in shapes for n in sizes], ex.map(lambda a: refs(b, 99, a[0], a[1], run.seed, 120), [(s, n) for s in shapes for n in sizes])):
            if r[0] is None:
                raise NoAnswer("baseline measurement failed: %s" % r[1])
            base[(s, n)] = r[0]
        trans = {}
        tj = [(s, o) for s in shapes for o in range(6)]
        for (s, o), r in zip(tj, ex.map(lambda a: refs(b, a[1], a[0], sizes[0], run.seed, 120), tj)):
            # (a failure here shows again below, where it is judged)
            trans[(s, o)] = (r[0] or 0) - base[(s, sizes[0])]
        for (op, s), (rows, bad) in zip(jobs, ex.map(lambda a: one(*a), jobs)):
            measured += len(rows)
            for (n1, w1), (n2, w2) in zip(rows, rows[1:]):
                if w1 > 200_000:
                    f = w2 / w1
                    if f > worst[0]:
                        worst = (round(f, 2), "%s on %s, %d -> %d" % (OPS[op], shapes[s], n1, n2))
            if rows:
                per.append(rows[-1][1] / rows[-1][0])
            if bad:
                _, o, _, _ = sh([b, "work", str(op), str(s), str(bad[1]), str(run.seed), "show"])
                kind, n, msg = bad
                if kind == "cannot finish" and not msg.startswith("no end"):
                    # the program died: not a statement about growth
                    run.errors.append("%s on %s, n=%d: %s" % (OPS[op], shapes[s], n, msg))
                else:
                    run.violation("instruction counts", op=OPS[op], shape=shapes[s], n=n, got=msg, expected="at most 7 times the work for 4 times the text", measured=rows,
                                  text_begins=o.strip(), command="mon work %d %d %d %d" % (op, s, n, run.seed))
            elif len(sat) < 8 and rows:
                sat.append("%s on %s: instructions at n=%s: %s" % (OPS[op], shapes[s], [r[0] for r in rows], [r[1] for r in rows]))
    run.cov["evaluations"] += measured
    run.cov["distinct_nontrivial"] += sum(1 for _ in jobs)
    run.cov["rule"] = "one case: (operation, text shape, length), measured in executed instructions less those of a baseline that only builds the text; counted as distinct: (operation, shape) series; all are non-trivial (fixed hostile shapes and random repeated patterns)"
    run.cov["samples"] += sat
    run.cov["worst_growth_factor_for_4x_text"] = {"factor": worst[0], "where": worst[1], "alarm_above": 7}
    run.cov["instructions_per_character_max"] = round(max(per), 1) if per else None
    run.cov["sizes"] = sizes
    run.engine("valgrind instruction counts", time.time() - t0, series=len(jobs), measurements=measured)
