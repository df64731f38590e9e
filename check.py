#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the monitors against /repo's working tree, runs them, writes evidence/<PROPERTY>.json.
Exit 0: held on everything observed. Exit 1 and "VIOLATION property=<id> replay=<path>": broken. Other: no answer."""
import argparse, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engines"))
from common import *
import common, plans

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    run = Run(a.prop, a.tier, a.seed)
    if a.replay:
        return plans.replay(run, json.load(open(a.replay)))
    try:
        plans.PLANS[a.prop](run)
    except NoAnswer as e:
        print("ERROR: %s" % e, file=sys.stderr)
        if not run.violations:
            return 2
    return run.finish()

if __name__ == "__main__":
    sys.exit(main())
