#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitor: online comparison of every execution with a naive executable model of UAX #15 over independent UCD 16.0 data"
T = {
 "C01": MODEL, "C02": MODEL,
 "C03": "runtime monitor: metamorphic relations between executions (idempotence, chaining, random equivalence walks, boundary splits)",
 "C04": "runtime monitor over exhaustive sweeps (all scalars; pairs) against independent UCD 16.0 facts",
 "C05": "runtime monitor over the exhaustive sweep of all scalars against independent UCD 16.0 facts",
 "C06": "runtime monitor: separation relation x+c+y around every non-public code point, exhaustive over code points",
 "C07": "runtime monitor: variation-sequence table as oracle plus metamorphic relations with later normalisation",
 "C08": "runtime monitor: three-valued verdicts judged against the model's truth and the UAX #15 quick-check algorithm",
 "C09": "runtime monitor: check verdict against the library's own normalisation of the same text",
 "C10": "runtime monitor: UAX15-D4 model comparison plus non-starter run-length, restoration and fixpoint monitors on the output",
 "C11": "runtime monitor: verdicts against model truth (form and NFKD run length); closure of forms under stream safety",
 "C12": "runtime monitor: instrumented source; reads counted at every emission against the segment bound",
 "C13": "runtime monitor: counting global allocator (calls, peak, balance) at every drop point and over long streams",
 "C14": "runtime monitor: trace of next() compared with clones, Display, hints and every consumption method at each intermediate state",
 "C15": "runtime monitor: cross-comparison of all entry points and source kinds, stacked versus stepwise transformation",
 "C16": "runtime monitor under compiler checks: overflow/UB-check build, AddressSanitizer, Miri, CPU and heap watchdogs",
 "C17": "runtime monitor: concurrent and interleaved histories against the sequential model, ThreadSanitizer, Miri race detector over many schedules",
 "C18": "offline checker over recorded output logs of all build configurations and targets",
 "C19": "fault injection: panicking sources and failing writers at every point, monitored for equality, prefix and leaks",
 "C20": "runtime monitor: executed-instruction counts under valgrind, growth ratio over hostile text families",
 "C21": "runtime monitor: library rebuilt from generated tables, every lookup and form judged against the database given",
}
import sys
sys.path.insert(0, os.path.join(HERE, "engines"))
import plans
NOTE = {p: "Oracle-judged executions of the real code; nothing is claimed beyond the executions counted in the evidence." for p in T}
NOTE["C05"] = "Exhaustive over all 1,112,064 scalar values, relative to data/ucd16.txt."
NOTE["C04"] = "Decompositions exhaustive; pairs exhaustive where either side can combine (thorough: also BMP x BMP); the rest sampled."
NOTE["C20"] = "Growth ratios observed up to the stated sizes on the stated families; not an asymptotic proof."
checks, na = [], []
for p in sorted(T):
    if p in plans.PLANS:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": T[p], "level": "exploration", "level_note": NOTE[p]})
    else:
        na.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
