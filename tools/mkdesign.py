"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "c16-unwind": "C16 gained sources that panic, end early, resume and lie about their length",
    "c21-test-rows": "test files with several rows for one character",
    "c01-packed-index": "very long texts, added for changes of this kind",
    "c02-blocks": "very long texts, added for changes of this kind",
    "c08-give-up": "very long texts, added for changes of this kind",
    "c09-blocks": "events cut in two at round positions, added for changes of this kind",
    "c12-drain": "C12 extended to quick checks on endless sources",
    "c16-recursion": "C16 runs an unoptimised build on a small stack",
    "c09-prefix": "texts with events far apart added to the engine",
    "c18-debug-assert": "longer texts in every C18 configuration",
    "c17-sync": "the harness did not compile; Send/Sync are now found at run time",
    "c17-init": "first use from several threads in thousands of fresh processes",
    "c17-race-stat": "first use in fresh processes under ThreadSanitizer, with long runs",
    "c20-after-run": "shapes that mix a long run with short clusters",
    "c16-nth-overflow": "found while writing it that counts near usize::MAX were not tried; C14 and C16 try them now",
    "c15-restack": "likewise: transformations taken over by others half-way",
}
MARK = "<!-- planted -->"
text = open(HERE + "/DESIGN.md").read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n"
text += "| change | caught by | needs in order to manifest | what it breaks |\n|---|---|---|---|\n"
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    c = m["property"] + (" (first missed: %s)" % MISSED[i] if i in MISSED else "")
    text += "| %s | %s | %s | %s |\n" % (i, c, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"))
open(HERE + "/DESIGN.md", "w").write(text)
