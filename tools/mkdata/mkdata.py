#!/usr/bin/env python3
"""Builds data/ucd16.txt: the Unicode 16.0.0 facts the reference model uses, from sources that are
INDEPENDENT of /repo:

  * age + general category : regex-syntax 0.8.11 (ucd-generate from ucd-16.0.0)
  * ccc, decomposition     : CPython's unicodedata (15.0.0) for characters of age <= 15.0 (normalization
                             stability makes these immutable); x/text (Go 1.27, 17.0.0) and ICU 78 (node,
                             17.0.0) for the characters added in 15.1 and 16.0
  * composition exclusions : ICU 78 / x/text / CPython agree on NFC(c) != c
  * CJK variants           : rule: n-th CJK compatibility ideograph (code point order) of a unified
                             ideograph is <unified, VSn>  (StandardizedVariants.txt)

Everything the sources say about the same character is cross-checked; any disagreement aborts.
usage: mkdata.py REGEX_SYNTAX_DIR GO_DUMP NODE_DUMP OUT
"""
import re, sys, unicodedata as U
rs, god, noded, out = sys.argv[1:5]
assert U.unidata_version == '15.0.0'
N = 0x110000
S_BASE, S_COUNT = 0xAC00, 11172
lit = r"'((?:\\u\{[0-9A-Fa-f]+\}|\\.|[^'\\]))'"
def ch(s):
    if s.startswith('\\u{'): return int(s[3:-1], 16)
    if s[0] == '\\': return {'n':10,'t':9,'r':13,'\\':92,"'":39,'0':0}[s[1]]
    return ord(s)
def tables(fn):
    t = open(fn, encoding='utf-8').read()
    r = {}
    for m in re.finditer(r"pub const (\w+): &'static \[\(char, char\)\] =\s*&\[(.*?)\];", t, re.S):
        r[m.group(1)] = [(ch(a), ch(b)) for a, b in re.findall(r"\(%s, %s\)" % (lit, lit), m.group(2))]
    return r
age = [None] * N
for name, rg in tables(rs + '/src/unicode_tables/age.rs').items():
    v = tuple(map(int, name[1:].split('_')))
    for a, b in rg:
        for c in range(a, b + 1):
            assert age[c] is None or 0xd7ff < c < 0xe000, (hex(c), age[c], v)
            age[c] = v
gc = tables(rs + '/src/unicode_tables/general_category.rs')
def setof(n): return {c for a, b in gc[n] for c in range(a, b + 1)}
MARK = setof('MARK'); UNASSIGNED = setof('UNASSIGNED'); PUA = setof('PRIVATE_USE')
assert setof('NONSPACING_MARK') | setof('SPACING_MARK') | setof('ENCLOSING_MARK') == MARK
scal = [c for c in range(N) if not 0xd800 <= c <= 0xdfff]
assert max(v for v in age if v) == (16, 0)
go = {}; node = {}
for l in open(god):
    if l[0] == '#': continue
    f = l.rstrip('\n').split(';'); go[int(f[0], 16)] = (int(f[1]), *[tuple(int(x, 16) for x in y.split()) for y in f[2:]])
for l in open(noded):
    if l[0] == '#': continue
    f = l.rstrip('\n').split(';'); node[int(f[0], 16)] = (f[1] == '1', f[2] == '1', *[tuple(int(x, 16) for x in y.split()) for y in f[3:]])
old = lambda c: age[c] is not None and age[c] <= (15, 0)
pub = []
ccc = {}; canon = {}; compat = {}; excl = set(); stats = dict(old=0, new=0, inert=0)
for c in scal:
    noncharacter = (c & 0xfffe) == 0xfffe or 0xfdd0 <= c <= 0xfdef
    assigned = c not in UNASSIGNED
    if noncharacter: assert not assigned
    else: assert assigned == (age[c] is not None), hex(c)
    if assigned and c not in PUA: pub.append(c)
    s = chr(c)
    if not assigned or c in PUA:
        stats['inert'] += 1
        assert c not in MARK
        if c in PUA: assert go[c] == (0, (c,), (c,), (c,), (c,)) and not node[c][0]
        continue
    assert node[c][1] and node[c][0] == (c in MARK), hex(c)
    assert go[c][1:] == node[c][2:], (hex(c), go[c], node[c])
    if old(c):
        stats['old'] += 1
        for i, f in enumerate(['NFD', 'NFKD', 'NFC', 'NFKC']):
            assert tuple(map(ord, U.normalize(f, s))) == go[c][1 + i], (hex(c), f)
        assert U.combining(s) == go[c][0] or 0x1100<=c<0x1200 , (hex(c), U.combining(s), go[c][0])
        if (U.category(s)[0] == 'M') != (c in MARK): print('gc changed since 15.0: %X %s' % (c, U.category(s)))
        k = U.combining(s); d = U.decomposition(s)
        if k: ccc[c] = k
        if S_BASE <= c < S_BASE + S_COUNT: continue
        if d.startswith('<'): compat[c] = [int(x, 16) for x in d.split()[1:]]
        elif d: canon[c] = [int(x, 16) for x in d.split()]
    else:
        stats['new'] += 1
        k, nfd, nfkd, nfc, nfkc = go[c]
        if k: ccc[c] = k
        if nfd != (c,):
            assert len(nfd) >= 2, hex(c)
            if len(nfd) == 2: canon[c] = list(nfd)
            else:
                first = [x for x in scal if go[x][1] == nfd[:-1]]
                assert len(first) == 1
                canon[c] = [first[0], nfd[-1]]
        elif nfkd != (c,): compat[c] = list(nfkd)
        print('new in %s: %X ccc=%d canon=%s compat=%s' % (age[c], c, k, [hex(x) for x in canon.get(c, [])], [hex(x) for x in compat.get(c, [])])) if (k or c in canon or c in compat) else None
    if c in canon and go[c][3] != (c,): excl.add(c)
# CJK variants
variants = {}; seen = {}
for c in sorted(canon):
    if (0xF900 <= c <= 0xFAFF or 0x2F800 <= c <= 0x2FA1F):
        assert len(canon[c]) == 1
        u = c
        while u in canon: u, = canon[u]
        n = seen[u] = seen.get(u, -1) + 1
        variants[c] = (u, 0xFE00 + n)
def ranges(xs):
    r = []
    for x in sorted(xs):
        if r and r[-1][1] == x - 1: r[-1][1] = x
        else: r.append([x, x])
    return r
with open(out, 'w') as f:
    f.write('# Unicode 16.0.0 facts, see tools/mkdata/mkdata.py for the provenance of every line\n')
    for c in sorted(ccc): f.write('c;%X;%d\n' % (c, ccc[c]))
    for c in sorted(canon): f.write('d;%X;%s\n' % (c, ' '.join('%X' % x for x in canon[c])))
    for c in sorted(compat): f.write('k;%X;%s\n' % (c, ' '.join('%X' % x for x in compat[c])))
    for c in sorted(excl): f.write('x;%X\n' % c)
    for c in sorted(variants): f.write('v;%X;%X %X\n' % (c, *variants[c]))
    for a, b in ranges(MARK & set(scal)): f.write('m;%X;%X\n' % (a, b))
    for a, b in ranges(pub): f.write('p;%X;%X\n' % (a, b))
print(stats, len(ccc), len(canon), len(compat), len(excl), len(variants), len(MARK), len(pub))
