"""A Unicode character database as Python dicts: reading the reference data file, past versions from CPython's
unicodedata, consistent random variations; writing UCD files (for the generator) and data files (for the monitors)."""
import os, random, unicodedata
S_BASE, S_COUNT = 0xAC00, 11172
CANON_RANGES = [("CJK Ideograph Extension A", 0x3400, 0x4DBF), ("CJK Ideograph", 0x4E00, 0x9FFF), ("Hangul Syllable", 0xAC00, 0xD7A3),
    ("Tangut Ideograph", 0x17000, 0x187F7), ("Tangut Ideograph Supplement", 0x18D00, 0x18D08),
    ("CJK Ideograph Extension B", 0x20000, 0x2A6DF), ("CJK Ideograph Extension C", 0x2A700, 0x2B739),
    ("CJK Ideograph Extension D", 0x2B740, 0x2B81D), ("CJK Ideograph Extension E", 0x2B820, 0x2CEA1), ("CJK Ideograph Extension F", 0x2CEB0, 0x2EBE0),
    ("CJK Ideograph Extension I", 0x2EBF0, 0x2EE5D), ("CJK Ideograph Extension G", 0x30000, 0x3134A), ("CJK Ideograph Extension H", 0x31350, 0x323AF)]
SPECIAL = [("Non Private Use High Surrogate", 0xD800, 0xDB7F, "Cs"), ("Private Use High Surrogate", 0xDB80, 0xDBFF, "Cs"),
    ("Low Surrogate", 0xDC00, 0xDFFF, "Cs"), ("Private Use", 0xE000, 0xF8FF, "Co"), ("Plane 15 Private Use", 0xF0000, 0xFFFFD, "Co"), ("Plane 16 Private Use", 0x100000, 0x10FFFD, "Co")]
TAGS = ["<compat>", "<font>", "<noBreak>", "<initial>", "<medial>", "<final>", "<isolated>", "<circle>", "<super>", "<sub>", "<vertical>", "<wide>", "<narrow>", "<small>", "<square>", "<fraction>"]

def nonchar(c):
    return (c & 0xFFFE) == 0xFFFE or 0xFDD0 <= c <= 0xFDEF
def hangul(c):
    return S_BASE <= c < S_BASE + S_COUNT
def jamo(c):
    return 0x1100 <= c <= 0x11FF
X = lambda c: "%04X" % c
XS = lambda v: " ".join("%04X" % c for c in v)

class DB:
    def __init__(self):
        self.ccc, self.canon, self.compat, self.excl, self.variants = {}, {}, {}, set(), {}
        self.mark, self.public = set(), set()
        self.version = (16, 0, 0)
        self.name = "?"
    # ---------------------------------------------------------------- sources
    @staticmethod
    def load(path):
        d = DB()
        for l in open(path):
            f = l.rstrip("\n").split(";")
            if f[0] == "c": d.ccc[int(f[1], 16)] = int(f[2])
            elif f[0] == "d": d.canon[int(f[1], 16)] = [int(x, 16) for x in f[2].split()]
            elif f[0] == "k": d.compat[int(f[1], 16)] = [int(x, 16) for x in f[2].split()]
            elif f[0] == "x": d.excl.add(int(f[1], 16))
            elif f[0] == "v": d.variants[int(f[1], 16)] = [int(x, 16) for x in f[2].split()]
            elif f[0] == "m": d.mark.update(range(int(f[1], 16), int(f[2], 16) + 1))
            elif f[0] == "p": d.public.update(range(int(f[1], 16), int(f[2], 16) + 1))
        d.name = "16.0.0"
        return d
    @staticmethod
    def cpython(U, version, base):
        d = DB()
        d.version = version
        d.name = "%d.%d.%d" % version
        for c in range(0x110000):
            ch = chr(c)
            g = U.category(ch)
            if g == "Cn" or g in ("Co", "Cs"):
                continue
            d.public.add(c)
            if g[0] == "M":
                d.mark.add(c)
            k = U.combining(ch)
            if k:
                d.ccc[c] = k
            m = U.decomposition(ch)
            if m and not hangul(c):
                p = m.split()
                if p[0][0] == "<":
                    d.compat[c] = [int(x, 16) for x in p[1:]]
                else:
                    d.canon[c] = [int(x, 16) for x in p]
        d.excl = {c for c in base.excl if c in d.canon}
        d.variants = {c: v for c, v in base.variants.items() if c in d.canon and c in d.public}
        d.close_exclusions()
        return d
    # ---------------------------------------------------------------- the algorithms (D68, D109, D117)
    def full(self, c, compat):
        m = self.canon.get(c)
        if m is None and compat:
            m = self.compat.get(c)
        if m is None:
            if hangul(c):
                i = c - S_BASE
                return [0x1100 + i // 588, 0x1161 + i // 28 % 21] + ([0x11A7 + i % 28] if i % 28 else [])
            return [c]
        return [y for x in m for y in self.full(x, compat)]
    def order(self, s):
        out, i = [], 0
        while i < len(s):
            j = i
            while j < len(s) and self.ccc.get(s[j], 0):
                j += 1
            out += sorted(s[i:j], key=lambda c: self.ccc[c])
            if j < len(s):
                out.append(s[j])
            i = j + 1
        return out
    def pairs(self):
        return {tuple(v): c for c, v in self.canon.items() if len(v) == 2 and c not in self.excl}
    def compose(self, s, pairs):
        o, st = [], None
        for c in s:
            k = self.ccc.get(c, 0)
            if st is not None:
                blocked = st + 1 < len(o) and (self.ccc.get(o[-1], 0) == 0 or self.ccc.get(o[-1], 0) >= k)
                if not blocked:
                    a = o[st]
                    p = pairs.get((a, c))
                    if 0x1100 <= a <= 0x1112 and 0x1161 <= c <= 0x1175:
                        p = S_BASE + ((a - 0x1100) * 21 + c - 0x1161) * 28
                    elif hangul(a) and (a - S_BASE) % 28 == 0 and 0x11A8 <= c <= 0x11C2:
                        p = a + c - 0x11A7
                    if p is not None:
                        o[st] = p
                        continue
            if k == 0:
                st = len(o)
            o.append(c)
        return o
    def nf(self, s, compat, comp, pairs):
        d = self.order([y for x in s for y in self.full(x, compat)])
        return self.compose(d, pairs) if comp else d
    def close_exclusions(self):
        """Full_Composition_Exclusion is exactly NFC(c) != c"""
        while True:
            pairs = self.pairs()
            bad = {c for c in self.canon if c not in self.excl and (len(self.canon[c]) != 2 or self.nf([c], False, True, pairs) != [c])}
            if not bad:
                return
            self.excl |= bad
    # ---------------------------------------------------------------- output
    def datafile(self, path):
        with open(path, "w") as f:
            f.write("V;%d.%d.%d\n" % self.version)
            for c, k in sorted(self.ccc.items()): f.write("c;%X;%d\n" % (c, k))
            for c, v in sorted(self.canon.items()): f.write("d;%X;%s\n" % (c, XS(v)))
            for c, v in sorted(self.compat.items()): f.write("k;%X;%s\n" % (c, XS(v)))
            for c in sorted(self.excl): f.write("x;%X\n" % c)
            for c, v in sorted(self.variants.items()): f.write("v;%X;%s\n" % (c, XS(v)))
            for t, s in (("m", self.mark), ("p", self.public)):
                for a, b in ranges(s): f.write("%s;%X;%X\n" % (t, a, b))
    def ucdfiles(self, d, rnd):
        os.makedirs(d, exist_ok=True)
        # ranges are written as <..., First>/<..., Last> where the database has nothing to say about their members
        inert = lambda c: c in self.public and c not in self.mark and c not in self.ccc and c not in self.canon and c not in self.compat
        rngs = {}
        for n, a, b in CANON_RANGES:
            for x, y in ranges([c for c in range(a, b + 1) if inert(c)]):
                if y - x > 5:
                    rngs[x] = (y, n if (x, y) == (a, b) else "%s %X" % (n, x))
        with open(d + "/UnicodeData.txt", "w") as f:
            lines = {}
            for n, a, b, g in SPECIAL:
                for c, w in ((a, "First"), (b, "Last")):
                    lines[c] = "%04X;<%s, %s>;%s;0;L;;;;;N;;;;;\n" % (c, n, w, g)
            skip = -1
            for c in sorted(self.public):
                if c <= skip:
                    continue
                if c in rngs:
                    e, n = rngs[c]
                    lines[c] = "%04X;<%s, First>;Lo;0;L;;;;;N;;;;;\n" % (c, n)
                    lines[e] = "%04X;<%s, Last>;Lo;0;L;;;;;N;;;;;\n" % (e, n)
                    skip = e
                    continue
                k = self.ccc.get(c, 0)
                g = ("Mn" if k else ["Mn", "Mc", "Me"][c % 3]) if c in self.mark else ["Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "Sm", "Sc", "Sk", "So", "Zs", "Zl", "Zp", "Cf"][c % 23]
                dec = XS(self.canon[c]) if c in self.canon else TAGS[c % len(TAGS)] + " " + XS(self.compat[c]) if c in self.compat else ""
                n = "<control>" if c < 0x20 or 0x7F <= c < 0xA0 else "CJK COMPATIBILITY IDEOGRAPH-%04X" % c if c in self.variants else "CHARACTER NUMBER %04X" % c
                if n == "<control>": g = "Cc"
                lines[c] = "%04X;%s;%s;%d;%s;%s;%s;%s;%s;N;%s;;%s;%s;%s\n" % (c, n, g, k, "NSM" if k else "L", dec, "", "7" if g == "Nd" else "", "7" if g in ("Nd", "No") else "", "OLD NAME" if c % 7 == 0 else "", "0041" if g == "Ll" else "", "0061" if g == "Lu" else "", "")
            for c in sorted(lines):
                f.write(lines[c])
        pairs = self.pairs()
        second = {b for _, b in pairs} | set(range(0x1161, 0x1176)) | set(range(0x11A8, 0x11C3))
        hang = set(range(S_BASE, S_BASE + S_COUNT))
        nfd = set(self.canon) | hang
        nfkd = nfd | set(self.compat)
        nfkc = {c for c in set(self.canon) | set(self.compat) if self.nf([c], True, True, pairs) != [c]}
        may = second | {c for c in self.canon if self.full(c, False)[0] in second}
        def lines(f, prop, s, val):
            for a, b in ranges(s):
                # the real files split ranges at category changes: split some here
                cuts = [a]
                if b - a > 3 and rnd.random() < .4:
                    cuts.append(rnd.randint(a + 1, b))
                cuts.append(b + 1)
                for x, y in zip(cuts, cuts[1:]):
                    f.write("%-14s; %s%s # Xx %s NAME\n" % (X(x) if y == x + 1 else X(x) + ".." + X(y - 1), prop, "" if val is None else "; " + val, "" if y == x + 1 else "[%d]" % (y - x)))
        with open(d + "/DerivedNormalizationProps.txt", "w") as f:
            f.write("# DerivedNormalizationProps-%d.%d.%d.txt\n#\n# Derived Property: FC_NFKC_Closure; x\n\n037A          ; FC_NFKC; 0020 03B9           # Lm       GREEK YPOGEGRAMMENI\n" % self.version)
            f.write("\n# ================================================\n\n# @missing: 0000..10FFFF; NFD_QC; Yes\n")
            lines(f, "Full_Composition_Exclusion", self.excl, None)
            f.write("# Total code points: %d\n\n" % len(self.excl))
            lines(f, "NFD_QC", nfd, "N")
            lines(f, "NFC_QC", self.excl, "N")
            lines(f, "NFC_QC", may - self.excl, "M")
            lines(f, "NFKD_QC", nfkd, "N")
            lines(f, "NFKC_QC", nfkc, "N")
            lines(f, "NFKC_QC", may - nfkc, "M")
            lines(f, "Expands_On_NFD", {c for c in nfd if len(self.full(c, False)) > 1}, None)
            f.write("0041          ; NFKC_CF; 0061                # L&       LATIN CAPITAL LETTER A\n00AD          ; NFKC_CF;                     # Cf       SOFT HYPHEN\n")
            lines(f, "Changes_When_NFKC_Casefolded", {c for c in nfkd if not hangul(c)}, None)
        with open(d + "/StandardizedVariants.txt", "w") as f:
            f.write("# StandardizedVariants-%d.%d.%d.txt\n# @missing\n\n0030 FE00; short diagonal stroke form; # DIGIT ZERO\n2205 FE00; zero with long diagonal stroke overlay form; # EMPTY SET\n1820 180B; second form; isolate medial final # MONGOLIAN LETTER A\n" % self.version)
            for c, v in sorted(self.variants.items(), key=lambda x: x[1]):
                f.write("%s; CJK COMPATIBILITY IDEOGRAPH-%04X; # CJK UNIFIED IDEOGRAPH-%04X\n" % (XS(v), c, v[0]))
            f.write("A856 FE00; phags-pa letter reversed shaping small a; # PHAGS-PA LETTER SMALL A\n#EOF\n")
        with open(d + "/NormalizationTest.txt", "w") as f:
            f.write("# NormalizationTest-%d.%d.%d.txt\n# c2 == toNFC(c1); c3 == toNFD(c1)\n#\n@Part0 # Specific cases\n#\n" % self.version)
            cs = sorted(nfkd)
            for i, c in enumerate(rnd.sample(cs, 120) + cs[:2] + cs[-2:]):
                s = [c] + rnd.sample(sorted(self.ccc), [1, 0, 2, 4][i % 4])
                if i == 60:
                    f.write("#\n@Part1 # Character by character test\n# All characters not explicitly occurring in c1 of Part 1 have identical NFC, D, KC, KD forms.\n\n")
                for s in [s, s + [s[-1]]][:1 + i % 5 // 4]:
                  f.write(";".join(XS(v) for v in [s] + [self.nf(s, k, m, pairs) for k, m in ((0, 1), (0, 0), (1, 1), (1, 0))]) + "; # (%s; %s; ) NAME\n" % (chr(c) if not 0xD800 <= c < 0xE000 else "?", "x"))
            f.write("#\n# EOF\n")
    # ---------------------------------------------------------------- consistent variations
    def mutate(self, seed):
        r = random.Random(seed)
        d = DB()
        d.name = "variation %d of %s" % (seed, self.name)
        d.version = self.version
        d.ccc, d.canon, d.compat, d.variants = dict(self.ccc), dict(self.canon), dict(self.compat), dict(self.variants)
        d.excl, d.mark, d.public = set(self.excl), set(self.mark), set(self.public)
        # combining classes: an order-preserving relabelling
        old = sorted(set(d.ccc.values()))
        new = sorted(r.sample(range(1, 255), len(old)))
        if r.random() < .7:
            m = dict(zip(old, new))
            d.ccc = {c: m[k] for c, k in d.ccc.items()}
        classes = sorted(set(d.ccc.values()))
        # characters nothing refers to disappear
        used = {x for v in list(d.canon.values()) + list(d.compat.values()) + list(d.variants.values()) for x in v}
        # (what lies below U+0345 is as in every version: shortcuts for Latin text are legitimate)
        keep = {c for c in d.public if c < 0x345 or c == 0x34F or hangul(c) or jamo(c)}
        cand = sorted(c for c in (set(d.canon) | set(d.compat) | d.mark) if c not in used and c not in keep)
        for c in r.sample(cand, len(cand) * r.choice([2, 10, 30]) // 100):
            for t in (d.ccc, d.canon, d.compat, d.variants): t.pop(c, None)
            for t in (d.excl, d.mark, d.public): t.discard(c)
        # free places: in the BMP, in the planes in use, in planes nothing lives in
        free = [c for c in range(0x345, 0x110000) if c not in d.public and not nonchar(c) and not any(a <= c <= b for _, a, b, _ in SPECIAL)]
        bmp = [c for c in free if c < 0x10000]
        low = [c for c in free if 0x10000 <= c < 0x20000]
        hi = [c for c in free if c >= 0x30000]
        pool = r.sample(bmp, min(len(bmp), 700)) + r.sample(low, 700) + r.sample(hi, 300)
        r.shuffle(pool)
        def fresh():
            c = pool.pop()
            d.public.add(c)
            return c
        # new marks, some in runs, some starters that are marks
        newmarks = []
        for _ in range(r.randint(20, 150)):
            c = fresh()
            d.ccc[c] = r.choice(classes)
            d.mark.add(c)
            newmarks.append(c)
        for _ in range(60):
            d.mark.add(fresh())
        for _ in range(100):
            fresh()
        starters = [c for c in sorted(d.public) if c not in d.ccc and not hangul(c) and not jamo(c)]
        letters = [c for c in range(0x41, 0x7B) if chr(c).isalpha()]
        seconds = sorted({v[1] for v in d.canon.values() if len(v) == 2}) + newmarks
        seconds = [c for c in seconds if c not in d.canon and c not in d.compat and not jamo(c)]
        pairs = {tuple(v) for v in d.canon.values() if len(v) == 2}
        composites = [c for c in d.canon if c not in d.excl]
        # new canonical pairs, some stacked on earlier ones
        for _ in range(r.randint(60, 250)):
            t = r.random()
            a = r.choice(composites) if t < .35 and composites else r.choice(letters) if t < .6 else r.choice(starters)
            b = r.choice(seconds) if r.random() < .85 else r.choice([c for c in r.sample(starters, 8) if c not in d.canon and c not in d.compat and c > 0x7F] or seconds)
            if (a, b) in pairs or a in d.ccc:
                continue
            f = d.full(a, False)
            if d.order(f + [b]) != f + [b]:
                continue
            c = fresh()
            d.canon[c] = [a, b]
            pairs.add((a, b))
            composites.append(c)
            if r.random() < .1:
                d.excl.add(c)
        # some existing pairs become excluded
        for c in r.sample([c for c in composites if c >= 0x345], 25):
            d.excl.add(c)
        # singletons
        for _ in range(r.randint(5, 60)):
            a = r.choice(starters) if r.random() < .7 else r.choice(sorted(d.ccc))
            c = fresh()
            d.canon[c] = [a]
            d.excl.add(c)
            if a in d.ccc:
                d.ccc[c] = d.ccc[a]
                d.mark.add(c)
        # CJK compatibility ideographs with variation sequences
        unified = [c for c in starters if 0x4E00 <= c < 0xA000 or 0x20000 <= c < 0x2A000]
        seqs = {tuple(v) for v in d.variants.values()}
        for _ in range(r.randint(0, 40)):
            a, vs = r.choice(unified), r.choice([0xFE00, 0xFE01, 0xFE02, 0xFE0F, 0xE0100, 0xE01EF])
            if a in d.canon or a in d.compat or (a, vs) in seqs or vs not in d.public:
                continue
            c = fresh()
            d.canon[c] = [a]
            d.excl.add(c)
            d.variants[c] = [a, vs]
            seqs.add((a, vs))
        for c in r.sample(sorted(d.variants), len(d.variants) // 10):
            del d.variants[c]
        # compatibility mappings of all shapes: leading, trailing and only non-starters, nested, long
        targets = [c for c in sorted(d.public) if c not in d.ccc and not hangul(c)]
        marks = sorted(c for c in d.ccc if c not in d.canon)
        for _ in range(r.randint(60, 300)):
            n = r.choice([1, 1, 1, 2, 2, 3, 4, 5, 8, 18])
            ms = lambda k: sorted((r.choice(marks) for _ in range(k)), key=lambda c: d.ccc[c])
            t = r.random()
            if t < .15: v = ms(r.randint(1, 4))
            elif t < .3: v = ms(r.randint(1, 3)) + [r.choice(targets)]
            elif t < .5: v = [r.choice(targets)] + ms(r.randint(1, 5))
            elif t < .6: v = ms(1) + [r.choice(targets)] + ms(2)
            else: v = [r.choice(targets) if r.random() < .6 else r.choice(letters) for _ in range(n)]
            c = fresh()
            if d.order(d.full_list(v)) != d.full_list(v):
                continue
            d.compat[c] = v
        d.close_exclusions()
        return d
    def full_list(self, v):
        return [y for x in v for y in self.full(x, True)]

def ranges(s):
    out = []
    for c in sorted(s):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return [tuple(x) for x in out]
