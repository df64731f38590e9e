"""What is run for each property."""
import os, sys
from common import *

STD = ("Cases: every Unicode scalar value in several contexts, pairs (interesting character, combining character), every sequence over small interacting alphabets, "
       "exploded composites with an extra mark of each class at each position, random structured texts (clusters, runs around limits, repeated patterns, text confined to one block or property, "
       "long plain or normalised stretches with events far apart), runs of 16 shapes around power-of-two lengths up to 131073, and a coverage-guided corpus (libFuzzer, library instrumented, "
       "8 processes sharing what they find), and for C01 C02 C07-C11 C16 very long texts (a short unit repeated past 2^24 characters, thorough 2^32, and single runs of 2^24 non-starters, thorough 2^26), judged as the answer is produced. ")
NT = ("Non-trivial: the text contains at least one character that decomposes, has a non-zero combining class, can combine, or has a quick-check value other than Yes; "
      "distinct: by 64-bit hash of the whole text (counted per worker up to a cap, so a lower bound).")
RULES = {
    "text": STD + NT,
    "C01": STD + "Judged: NFD and NFKD, consumed in a different way each time, equal the model's form. " + NT,
    "C02": STD + "Judged: NFC and NFKC, consumed in a different way each time, equal the model's form. " + NT,
    "C03": STD + "Judged: relations between several executions on the text, on random equivalents of it (composed, decomposed, reordered where allowed) and on its boundary splits. " + NT,
    "C04": "Cases: every scalar value through both decomposition functions; pairs: every interesting x every interesting, every scalar x every second of a composition, every first x every scalar, "
           "firsts of no composition (a seed-chosen 1/700, thorough 1/12) x every scalar, thorough also BMP x BMP and plane images; random pairs; coverage-guided texts whose neighbours are composed. "
           "Pairs are counted in pairs_checked. " + NT,
    "C05": "Cases: every scalar value, exhaustively (three properties each), then in random order and histories; coverage-guided texts. " + NT,
    "C06": "Cases: every one of the 957,001 code points that are not publicly assigned, alone, between combinable neighbours and inside random texts; every such code point with every first and second of a composition. " + NT,
    "C07": "Cases: every scalar value in several contexts, each of the 1,002 variant ideographs with hundreds of neighbourhoods, random texts with ideographs inserted, long runs, coverage-guided texts. " + NT,
    "C08": STD + "Each text is also judged in its own four normal forms and in disturbed copies of them. Judged: the verdict against the model's truth and the UAX #15 quick-check algorithm. " + NT,
    "C09": STD + "Each text is also judged in its own four normal forms and in disturbed copies of them. Judged: the verdict against the library's own normalisation and the model's. " + NT,
    "C10": "Cases: exhaustively around the limit (every character with special stream-safe counts after 0 to 64 marks in several arrangements), then: " + STD + "Judged: equality with the D4 model, run lengths of the NFKD, restoration, fixpoint. " + NT,
    "C11": "Cases: exhaustively around the limit, then: " + STD + "Each text is also judged in its four normal forms and made stream-safe. " + NT,
    "C12": STD + "Judged at every next() of every iterator and at the end of every check: the number of characters the source has handed out. " + NT,
    "C13": STD + "Judged: allocator calls inside quick checks and character functions (none), heap held at every drop point (returned to the balance before), peak over stream-safe texts up to 300,000 characters (thorough 1,500,000). " + NT,
    "C14": STD + "Judged at every intermediate state: size_hint, clone, Display (plain and with width, precision and fill), fusing with a resuming source, every consumption method (next, nth, fold, try_fold, count, last, by_ref, max, partition ...). " + NT,
    "C15": STD + "Judged: about forty entry points and source kinds against one another, random consumption of one of them, random stacks of transformations against step-by-step application. " + NT,
    "C19": STD + "At every text faults are injected: the source panics at one or several of its reads (every position on short texts), the writer fails at each of its writes, a callback panics at each of its calls. "
           "Judged: propagation, the characters emitted after resumption, the text written before the error, results and heap balance afterwards. " + NT,
}
NOTE_MODEL = "the reference facts in data/ucd16.txt are those of Unicode 16.0.0 (cross-checked between regex-syntax 0.8 (UCD 16), CPython 3.12 (15.0), Go x/text (17), ICU 78)"

def simple(run, extra=()):
    run.cov["rule"] = RULES.get(run.prop, RULES["text"])
    run.assumptions.append(NOTE_MODEL)
    b, sec = build_mon("release")
    run.engine("build release", sec)
    run_mon(run, b, "release", extra)
    if not run.violations:
        fuzz(run, 200 if run.thorough else 12)
    if run.thorough and not run.violations:
        # a second life under every library-side assertion
        b, sec = build_mon("checked")
        run.engine("build checked", sec)
        run.tier = "quick"
        run_mon(run, b, "checked", merge=False)
        run.tier = "thorough"

PLANS = {p: simple for p in ["C%02d" % i for i in list(range(1, 16)) + [19]]}

def replay(run, rec):
    """re-executes the recorded violations against /repo's current tree"""
    bad = 0
    for v in rec.get("violations", []):
        if "input" not in v:
            print("no single input recorded (%s): run the check itself with VERIF_SEED=%s" % (v.get("engine"), rec.get("seed")))
            continue
        b, _ = build_mon("checked" if "checked" in v.get("engine", "") else "release")
        n = len(run.violations)
        run_mon(run, b, "release", ["--input", v["input"]])
        print(("reproduced: " if len(run.violations) > n else "not reproduced: ") + str(v.get("op")) + " [" + v["input"][:300] + "]")
        bad += len(run.violations) > n
    return 1 if bad else 0

import growth
PLANS["C20"] = growth.c20
import probe
PLANS.update({"C16": probe.c16, "C17": probe.c17, "C18": probe.c18})
import generator
PLANS["C21"] = generator.c21
