#!/usr/bin/env python3
"""Runs the quick check of each planted change's property (or given properties) against /repo with the change applied, then undoes it.
usage: sens.py [--props C01,C02 | --all] [--seed N] [ID...]   (maintenance tool, no check uses it)"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
props, seed, ids = None, "1", []
while a:
    x = a.pop(0)
    if x == "--props": props = a.pop(0).split(",")
    elif x == "--all": props = ["C%02d" % i for i in range(1, 22)]
    elif x == "--seed": seed = a.pop(0)
    else: ids.append(x)
S = os.path.join(HERE, "seeded")
for i in sorted(ids or os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    assert subprocess.call(["git", "-C", "/repo", "diff", "--quiet"]) == 0, "/repo is not clean"
    subprocess.check_call(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")])
    try:
        for p in props or [m["property"]]:
            t = time.time()
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p, "--seed", seed], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode("utf-8", "replace")
            v = "caught" if r.returncode == 1 and "VIOLATION property=%s" % p in o else "MISSED" if r.returncode == 0 else "NO ANSWER %s" % r.returncode
            first = next((l.strip()[:150] for l in o.split("\n") if l.startswith("  ")), "")
            print("%-24s %s %-9s %5.1f s  %s" % (i, p, v, time.time() - t, first if v == "caught" else o[-300:].replace("\n", " | ") if v[0] == "N" else ""), flush=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
