#!/usr/bin/env python3
"""The reference model against two other implementations (CPython's unicodedata, Node's ICU) on generated texts.
Maintenance tool: no check uses it. usage: crosscheck.py [SEED [COUNT]]   (needs target/release/mon)"""
import os, subprocess, sys, unicodedata
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = os.environ.get("MON", os.path.join(HERE, "target/release/mon"))
DATA = os.path.join(HERE, "data/ucd16.txt")
seed, count = (sys.argv + ["1", "200000"][len(sys.argv) - 1:])[1:3]
texts = subprocess.check_output([MON, "cases", "--data", DATA, "--seed", seed, "--count", count, "--max", "60"]).decode().strip().split("\n")
model = subprocess.run([MON, "model", "--data", DATA], input="\n".join(texts).encode(), stdout=subprocess.PIPE, check=True).stdout.decode().strip().split("\n")
js = """const h=s=>Array.from(s).map(c=>c.codePointAt(0).toString(16).toUpperCase()).join(' ');
for(const l of require('fs').readFileSync(0,'utf8').split('\\n')){const s=l.slice(2).split(' ').filter(x=>x).map(x=>String.fromCodePoint(parseInt(x,16))).join('');
console.log(['NFD','NFKD','NFC','NFKC'].map(f=>h(s.normalize(f))).join('|')+'|'+h(s.replace(/[\\p{Cn}\\p{Co}]/ug,'')))}"""
icu = subprocess.run(["node", "-e", js], input="\n".join(texts).encode(), stdout=subprocess.PIPE, check=True).stdout.decode().strip().split("\n")
hx = lambda s: " ".join("%X" % ord(c) for c in s)
public = bytearray(0x110000)
for l in open(DATA):
    f = l.strip().split(";")
    if f[0] == "p":
        lo, hi = int(f[1], 16), int(f[2], 16)
        public[lo:hi + 1] = b"\1" * (hi + 1 - lo)
bad = py = ic = 0
for t, m, i in zip(texts, model, icu):
    s = "".join(chr(int(x, 16)) for x in t[2:].split())
    if any(unicodedata.category(c) == "Cn" for c in s):
        pass                  # not in CPython's version
    else:
        py += 1
        p = "|".join(hx(unicodedata.normalize(f, s)) for f in ("NFD", "NFKD", "NFC", "NFKC"))
        if p != m:
            bad += 1
            print("CPython differs on", t, "\n ", p, "\n ", m)
    i, assigned = i.rsplit("|", 1)
    if not all(public[int(x, 16)] for x in assigned.split()):
        continue              # a character assigned after 16.0
    ic += 1
    if i != m:
        bad += 1
        print("ICU differs on", t, "\n ", i, "\n ", m)
    if bad > 10:
        break
print("%d texts: %d compared with CPython, %d with ICU, %d differences" % (len(texts), py, ic, bad))
