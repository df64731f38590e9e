//! Workloads: exhaustive small families, structured random text, hostile text.
use crate::rng::Rng;
use crate::rt::{parallel, Ctx, Res, W};
use crate::ucd::{Cov, Form, Ucd, FORMS};

pub type Case<'a> = dyn Fn(&mut W, &[char]) -> Res + Sync + 'a;

pub fn chs(s: &str) -> Vec<char> {
    s.chars().collect()
}
fn ch(x: u32) -> char {
    char::from_u32(x).unwrap()
}

/// G1: every Unicode scalar value, alone and in contexts that let it decompose, reorder, compose, block, be blocked.
/// `stride` > 1 visits a seed-chosen residue of the scalars (the "interesting" ones are always all visited).
pub fn scalars_in_context(c: &Ctx, name: &str, contexts: usize, stride: u32, f: &Case) {
    let off = (crate::rng::mix(c.seed) % stride as u64) as u32;
    parallel(c, name, 0x110, &|w, b| {
        let u = w.u;
        let mut t: Vec<char> = Vec::with_capacity(8);
        for x in (b as u32 * 0x1000)..(b as u32 * 0x1000 + 0x1000) {
            if w.c.stop.load(std::sync::atomic::Ordering::Relaxed) {
                return;
            }
            let Some(k) = char::from_u32(x) else { continue };
            if x % stride != off && u.interesting.binary_search(&k).is_err() {
                continue;
            }
            for i in 0..contexts {
                t.clear();
                match i {
                    0 => t.push(k),
                    1 => t.extend(['a', k]),
                    2 => t.extend([k, '\u{301}']),
                    3 => t.extend(['o', '\u{328}', k, '\u{304}']),
                    4 => t.extend([k, '\u{316}', '\u{301}', 'x']),
                    5 => t.extend(['\u{AC00}', k]),
                    6 => t.extend(['\u{1100}', k, '\u{11A8}']),
                    7 => t.extend([k, '\u{1161}', k]),
                    8 => t.extend(['e', '\u{302}', k, '\u{323}', '\u{301}']),
                    9 => t.extend([k, k, '\u{338}', k]),
                    10 => {
                        let a = w.rng.pick(&u.firsts);
                        let b = w.rng.pick(&u.nonst);
                        t.extend([a, k, b])
                    }
                    11 => {
                        let a = w.rng.pick(&u.interesting);
                        let b = w.rng.pick(&u.interesting);
                        t.extend([a, k, b])
                    }
                    _ => {
                        let a = w.rng.pick(&u.nonst);
                        let b = w.rng.pick(&u.seconds);
                        let d = w.rng.pick(&u.firsts);
                        t.extend([d, a, k, b])
                    }
                }
                w.case(&t, f);
            }
        }
    });
}

/// G2: interesting character x character that can combine or reorder.
pub fn pairs(c: &Ctx, name: &str, frac: f64, f: &Case) {
    let u = c.u;
    let mut rs: Vec<char> = u.seconds.iter().chain(u.ccc_reps.iter()).chain(u.ss_special.iter()).copied().collect();
    rs.sort();
    rs.dedup();
    let n = u.interesting.len();
    let per = 64;
    let units = n.div_ceil(per);
    let keep = (frac * 1024.0) as usize;
    parallel(c, name, units, &|w, i| {
        for &a in &u.interesting[i * per..(i * per + per).min(n)] {
            if w.c.stop.load(std::sync::atomic::Ordering::Relaxed) {
                return;
            }
            for &b in &rs {
                if keep < 1024 && w.rng.below(1024) >= keep {
                    continue;
                }
                w.case(&[a, b], f);
            }
        }
    });
}

/// G3: every sequence up to length `n` over small alphabets chosen to interact.
pub fn alphabets(c: &Ctx, name: &str, budget: usize, randoms: usize, f: &Case) {
    let u = c.u;
    let mut al: Vec<Vec<char>> = [
        "a\u{301}\u{316}\u{327}\u{300}",
        "e\u{302}\u{301}\u{323}\u{1EC7}\u{EA}",
        "\u{1100}\u{1161}\u{11A8}\u{AC00}\u{AC01}\u{11A7}",
        "\u{1611E}\u{1611F}\u{16120}\u{16121}\u{16123}\u{16129}",
        "\u{344}\u{308}\u{301}\u{34F}\u{345}\u{3B1}",
        "\u{F71}\u{F72}\u{F73}\u{F74}\u{F80}\u{F81}",
        "\u{FF76}\u{FF9E}\u{30AB}\u{3099}\u{FF9F}\u{309A}",
        "\u{9C7}\u{9BE}\u{9CB}\u{9D7}\u{9BC}",
        "\u{16D63}\u{16D67}\u{16D68}\u{16D69}\u{301}",
        "\u{113C2}\u{113B8}\u{113C9}\u{113C5}\u{113B9}",
        "\u{105D2}\u{307}\u{105C9}\u{316}",
        "\u{1B42}\u{1B35}\u{1B43}\u{1B34}\u{1B3A}",
        "\u{110B9}\u{110BA}\u{1109A}\u{110BA}\u{1109B}",
        "\u{DD9}\u{DCF}\u{DCA}\u{DDC}\u{DDD}",
        "o\u{31B}\u{323}\u{1EE3}\u{1A1}\u{301}",
        "\u{212B}\u{C5}A\u{30A}\u{301}\u{1FA}",
        "\u{2126}\u{3A9}\u{314}\u{342}\u{345}\u{1FAF}",
        "\u{1D15E}\u{1D157}\u{1D165}\u{1D16E}\u{1D164}",
        "\u{958}\u{915}\u{93C}\u{FB2C}\u{5C1}\u{5BC}",
        "\u{2FA1D}\u{2A600}\u{F900}\u{FE00}\u{301}",
        "x\u{2ADC}\u{2ADD}\u{338}\u{301}",
        "\u{FDFA}\u{64B}\u{651}\u{FC5E}\u{20}",
        "\u{A0}\u{308}\u{A8}\u{301}\u{385}\u{20}",
        "q\u{E000}\u{301}\u{378}\u{FFFF}",
        "\u{1133E}\u{11347}\u{1134B}\u{11357}\u{1134C}",
        "\u{114B9}\u{114BA}\u{114BB}\u{114B0}\u{114BD}\u{114BE}",
        "\u{1025}\u{102E}\u{1026}\u{1037}",
        "\u{11131}\u{11127}\u{1112E}\u{11132}\u{1112F}",
    ]
    .iter()
    .map(|s| chs(s))
    .collect();
    let mut r = Rng::new(c.seed ^ 0xA1FA);
    for i in 0..randoms {
        let k = r.range(4, 7);
        let (a, b, co) = r.pick(&u.pair_list);
        let mut v = vec![a, b, co];
        if i % 3 == 0 {
            v.push(r.pick(&u.seconds));
        }
        while v.len() < k {
            v.push(match r.below(5) {
                0 => r.pick(&u.nonst),
                1 => r.pick(&u.seconds),
                2 => r.pick(&u.excluded),
                3 => r.pick(&u.compat),
                _ => r.pick(&u.interesting),
            })
        }
        v.sort();
        v.dedup();
        al.push(v);
    }
    // (alphabet, length) with alphabet^length <= budget
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for (ai, v) in al.iter().enumerate() {
        let mut len = 1;
        let mut total = v.len();
        while total <= budget {
            let mut lo = 0;
            while lo < total {
                jobs.push((ai, len, lo));
                lo += 4096;
            }
            len += 1;
            total *= v.len();
        }
    }
    parallel(c, name, jobs.len(), &|w, j| {
        let (ai, len, lo) = jobs[j];
        let v = &al[ai];
        let total = v.len().pow(len as u32);
        let mut t = Vec::with_capacity(len);
        for i in lo..(lo + 4096).min(total) {
            if w.c.stop.load(std::sync::atomic::Ordering::Relaxed) {
                return;
            }
            t.clear();
            let mut x = i;
            for _ in 0..len {
                t.push(v[x % v.len()]);
                x /= v.len();
            }
            w.case(&t, f);
        }
    });
}

pub fn run_len(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=5 => r.range(0, 2),
        6..=10 => r.range(2, 5),
        11..=13 => r.range(3, 9),
        14..=15 => r.range(8, 20),
        16 => r.range(27, 34),
        17 => r.range(18, 40),
        18 => r.range(57, 64),
        _ => r.range(30, 130),
    }
}
fn scalar(r: &mut Rng) -> char {
    loop {
        if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
            return c;
        }
    }
}
pub fn any_char(u: &Ucd, r: &mut Rng) -> char {
    match r.below(14) {
        0 => r.pick(&u.nonst),
        1 => r.pick(&u.seconds),
        2 => r.pick(&u.firsts),
        3 => r.pick(&u.composites),
        4 => r.pick(&u.excluded),
        5 => r.pick(&u.compat),
        6 => r.pick(&u.hangul),
        7 => ch(r.range(0x20, 0x7E) as u32),
        8 => r.pick(&u.ss_special),
        9 => r.pick(&u.qcmaybe),
        10 => r.pick(&u.cjk),
        11 => ch(r.range(0x80, 0x3000) as u32),
        12 => r.pick(&u.interesting),
        _ => scalar(r),
    }
}
fn starterish(u: &Ucd, r: &mut Rng) -> char {
    match r.below(8) {
        0 | 1 => r.pick(&u.firsts),
        2 => r.pick(&u.composites),
        3 => r.pick(&u.hangul),
        4 => ch(r.range(0x61, 0x7A) as u32),
        5 => r.pick(&u.canon),
        6 => r.pick(&u.compat),
        _ => any_char(u, r),
    }
}
fn markish(u: &Ucd, r: &mut Rng) -> char {
    match r.below(8) {
        0 | 1 => r.pick(&u.nonst),
        2 => r.pick(&u.ccc_reps),
        3 => {
            // a class chosen uniformly, then a member of it
            loop {
                let v = &u.by_ccc[r.below(256)];
                if !v.is_empty() {
                    break r.pick(v);
                }
            }
        }
        4 | 5 => {
            let c = r.pick(&u.seconds);
            if u.cc(c) == 0 && r.chance(1, 2) {
                r.pick(&u.nonst)
            } else {
                c
            }
        }
        6 => r.pick(&['\u{301}', '\u{300}', '\u{302}', '\u{308}', '\u{323}', '\u{327}', '\u{316}', '\u{345}', '\u{304}', '\u{338}']),
        _ => r.pick(&['\u{344}', '\u{343}', '\u{340}', '\u{341}', '\u{F73}', '\u{F75}', '\u{F81}', '\u{34F}', '\u{FF9E}', '\u{FF9F}', '\u{3099}']),
    }
}
/// a composite taken apart to a random depth, with its pieces disturbed: extra marks between, swaps, repeats
fn exploded(u: &Ucd, r: &mut Rng, t: &mut Vec<char>) {
    let c = if r.chance(1, 5) { r.pick(&u.canon) } else { r.pick(&u.composites) };
    let mut v = vec![c];
    for _ in 0..r.below(4) {
        let i = r.below(v.len());
        if let Some(d) = u.canon_raw.get(&(v[i] as u32)) {
            v.splice(i..=i, d.iter().copied());
        }
    }
    for _ in 0..r.below(4) {
        let i = r.below(v.len() + 1);
        match r.below(6) {
            0 | 1 => v.insert(i, markish(u, r)),
            2 => {
                if i + 1 < v.len() {
                    v.swap(i, i + 1)
                }
            }
            3 => {
                if i < v.len() {
                    v.insert(i, v[i])
                }
            }
            4 => {
                // a mark of the same class as one that is there
                let k = u.cc(r.pick(&v));
                if k != 0 {
                    v.insert(i, r.pick(&u.by_ccc[k as usize]))
                }
            }
            _ => v.insert(i, r.pick(&u.seconds)),
        }
    }
    t.extend(v);
}
fn cluster(u: &Ucd, r: &mut Rng, t: &mut Vec<char>) {
    t.push(starterish(u, r));
    let n = run_len(r);
    let style = r.below(6);
    let m = markish(u, r);
    let k0 = t.len();
    for _ in 0..n {
        t.push(match style {
            0 => m,
            1 => r.pick(&u.ccc_reps),
            2 => {
                let k = u.cc(m).max(1);
                let v = &u.by_ccc[k as usize];
                if v.is_empty() {
                    m
                } else {
                    r.pick(v)
                }
            }
            _ => markish(u, r),
        })
    }
    match r.below(4) {
        0 => t[k0..].sort_by_key(|&c| u.cc(c)),
        1 => t[k0..].sort_by_key(|&c| 255 - u.cc(c)),
        _ => {}
    }
}
fn hangul(u: &Ucd, r: &mut Rng, t: &mut Vec<char>) {
    for _ in 0..r.range(1, 6) {
        let l = ch(0x1100 + r.below(19) as u32);
        let v = ch(0x1161 + r.below(21) as u32);
        let f = ch(0x11A7 + r.below(28) as u32);
        match r.below(8) {
            0 => t.extend([l, v, f]),
            1 => t.extend([l, v]),
            2 => t.push(ch(0xAC00 + r.below(11172) as u32)),
            3 => t.extend([ch(0xAC00 + 28 * r.below(399) as u32), f]),
            4 => t.extend([l, markish(u, r), v]),
            5 => t.push(r.pick(&u.hangul)),
            6 => t.extend([v, f]),
            _ => t.extend([ch(0xAC00 + r.below(11172) as u32), markish(u, r)]),
        }
    }
}
/// runs of non-starters whose NFKD length comes near multiples of 30, with characters contributing 0..4 at each edge
pub fn streamy(u: &Ucd, r: &mut Rng, t: &mut Vec<char>) {
    if r.chance(3, 4) {
        if r.chance(1, 2) {
            t.push(r.pick(&u.ss_special))
        } else {
            t.push(starterish(u, r))
        }
    }
    let target = 30 * r.range(1, 3) + r.below(7) - 3;
    let mut n = 0;
    let sorted = r.chance(1, 3);
    let k0 = t.len();
    let base = markish(u, r);
    let plain = r.chance(1, 3);
    while n < target {
        let c = if plain && u.cc(base) != 0 {
            base
        } else if r.chance(1, 6) {
            r.pick(&['\u{344}', '\u{F73}', '\u{F75}', '\u{F81}', '\u{343}', '\u{340}', '\u{FF9E}', '\u{FF9F}', '\u{F79}', '\u{F77}'])
        } else {
            r.pick(&u.nonst)
        };
        n += u.nfkd1(c).len();
        t.push(c)
    }
    if sorted {
        t[k0..].sort_by_key(|&c| u.cc(c))
    }
    match r.below(6) {
        0 => t.push(r.pick(&u.ss_special)),
        1 => t.push('\u{34F}'),
        2 => {
            t.push(r.pick(&u.ss_special));
            t.push(r.pick(&u.nonst))
        }
        3 => t.push('a'),
        _ => {}
    }
}
/// NFC-ish text with exactly n nonstarters after a composed base: classes ascending, no further composition
fn sortedrun(u: &Ucd, r: &mut Rng, t: &mut Vec<char>) {
    t.push(starterish(u, r));
    let n = r.pick(&[1, 3, 15, 28, 29, 30, 31, 32, 33, 59, 60, 61]);
    let mut v: Vec<char> = (0..n).map(|_| if r.chance(1, 3) { r.pick(&['\u{316}', '\u{317}', '\u{318}', '\u{334}', '\u{305}', '\u{30D}']) } else { r.pick(&u.nonst) }).collect();
    v.sort_by_key(|&c| u.cc(c));
    t.extend(v);
}
fn words(_u: &Ucd, r: &mut Rng, t: &mut Vec<char>) {
    const W: [&str; 12] = [
        "The quick brown fox ", "Ångström ", "Đường phố ", "한국어 문장 ", "がぎぐげご ", "ﬁnancial ½ ", "Ελλάδα ᾳ ", "हिन्दी क़ ",
        "שָׁלוֹם ", "العربية ﷺ ", "བོད་སྐད་ ", "漢字 豈更車 ",
    ];
    let d = r.below(3);
    for c in W[r.below(12)].chars() {
        if d == 0 {
            t.push(c)
        } else {
            t.extend(_u.dec1(c, d == 2).iter())
        }
    }
}
/// text confined to a range of code points (a plane, a block, everything below a limit, one UTF-8 length): where shortcuts apply
pub fn ranged(u: &Ucd, r: &mut Rng, n: usize, t: &mut Vec<char>) {
    const LIM: [u32; 28] = [
        0x80, 0xC0, 0x100, 0x180, 0x250, 0x2B0, 0x300, 0x340, 0x370, 0x400, 0x500, 0x590, 0x600, 0x800, 0x900, 0x1000, 0x1100, 0x1200, 0x1E00, 0x2000, 0x3000, 0x3400, 0xA000, 0xAC00, 0xD800, 0xF900, 0x10000, 0x20000,
    ];
    let (lo, hi) = match r.below(6) {
        0 => (0, r.pick(&LIM)),
        1 => (r.pick(&LIM), 0x110000),
        2 => {
            let (a, b) = (r.pick(&LIM), r.pick(&LIM));
            (a.min(b), a.max(b).max(a.min(b) + 1))
        }
        3 => {
            let k = 1 << r.range(5, 12);
            let c = r.pick(&u.interesting) as u32 / k * k;
            (c, c + k)
        }
        4 => r.pick(&[(0x20, 0x100), (0x80, 0x800), (0x800, 0x10000), (0x10000, 0x110000), (0xA0, 0x300), (0x1100, 0x1200), (0xAC00, 0xD7A4), (0x4E00, 0xFB00), (0xC0, 0x370)]),
        _ => {
            let c = r.pick(&u.interesting) as u32;
            (c.saturating_sub(r.below(64) as u32), c + 1 + r.below(64) as u32)
        }
    };
    let a = u.interesting.partition_point(|&c| (c as u32) < lo);
    let b = u.interesting.partition_point(|&c| (c as u32) < hi);
    // how often something interesting appears: mostly, or once in a while among plain text
    let rate = r.pick(&[1, 2, 2, 12]);
    while t.len() < n {
        if b > a && r.chance(1, rate) {
            t.push(u.interesting[r.range(a, b - 1)])
        } else {
            t.push(char::from_u32(lo + r.below((hi - lo) as usize) as u32).unwrap_or(if lo <= 0x61 && 0x61 < hi { 'a' } else { '\u{E000}' }))
        }
    }
}
/// a short pattern of characters, often all of one kind
pub fn pattern(u: &Ucd, r: &mut Rng) -> Vec<char> {
    let k = r.range(1, 6);
    let sets: [&Vec<char>; 9] = [&u.composites, &u.canon, &u.compat, &u.nonst, &u.firsts, &u.seconds, &u.hangul, &u.excluded, &u.interesting];
    let (a, b) = (r.pick(&sets), r.pick(&sets));
    let style = r.below(4);
    (0..k)
        .map(|i| match style {
            0 => r.pick(a),
            1 => r.pick(if i == 0 { a } else { b }),
            2 => any_char(u, r),
            _ => {
                if i == 0 {
                    starterish(u, r)
                } else {
                    markish(u, r)
                }
            }
        })
        .collect()
}
pub fn repeated(u: &Ucd, r: &mut Rng, n: usize, t: &mut Vec<char>) {
    let p = pattern(u, r);
    let k = t.len();
    while t.len() < k + n {
        t.extend(&p)
    }
    t.truncate(k + n);
    // one disturbance somewhere, sometimes
    if r.chance(1, 3) {
        disturb(u, r, t)
    }
}
/// plain text of some length and then something happens
pub fn padded(u: &Ucd, r: &mut Rng, t: &mut Vec<char>) {
    let n = match r.below(4) {
        0 => r.range(0, 20),
        1 => r.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        _ => run_len(r),
    };
    let (lo, k) = r.pick(&[(0x61u32, 26u32), (0x61, 26), (0x20, 95), (0xC0, 1), (0x430, 32), (0x4E00, 500), (0x1F600, 60), (0x5D0, 20)]);
    for _ in 0..n {
        t.push(ch(lo + r.below(k as usize) as u32))
    }
    for _ in 0..r.range(1, 3) {
        if r.chance(1, 4) {
            exploded(u, r, t)
        } else {
            t.push(if r.chance(1, 2) { markish(u, r) } else { any_char(u, r) })
        }
    }
}
/// something happens after (and perhaps before) long stretches in which nothing does; the stretches are in normal form, though a quick check may doubt them
pub fn eventful(u: &Ucd, r: &mut Rng, t: &mut Vec<char>) {
    let stretch = |r: &mut Rng, t: &mut Vec<char>| {
        let b = r.pick(&[64usize, 128, 256, 256, 512, 1024, 1024, 2048, 4096, 4096, 5000, 8192]);
        let n = if r.chance(1, 12) { r.pick(&[16384, 32768, 65536]) } else { b };
        let n = (n + r.below(9)).saturating_sub(r.below(9));
        let p: Vec<char> = match r.below(8) {
            0..=2 => vec![ch(0x61 + r.below(26) as u32)],
            3 => "the quick brown fox jumps. ".chars().collect(),
            4 => vec![r.pick(&['\u{E9}', '\u{44F}', '\u{4E00}', '\u{AC01}', '\u{1F600}', '\u{3042}', '\u{E000}', '\u{378}'])],
            5 => vec!['q', r.pick(&['\u{301}', '\u{323}', '\u{338}', '\u{345}'])],
            6 => vec!['x', '\u{323}', '\u{301}', 'y'],
            _ => vec![r.pick(&u.hangul), 'a', '\u{30A}'],
        };
        let k = t.len();
        while t.len() < k + n {
            t.extend(&p)
        }
        t.truncate(k + n)
    };
    let event = |r: &mut Rng, t: &mut Vec<char>| match r.below(8) {
        0 => exploded(u, r, t),
        1 => cluster(u, r, t),
        2 => t.extend(['e', '\u{301}']),
        3 => {
            let c = r.pick(&u.composites);
            t.extend(u.nfd1(c).iter())
        }
        4 => {
            for _ in 0..r.range(1, 4) {
                let m = markish(u, r);
                t.push(m)
            }
        }
        5 => t.push(any_char(u, r)),
        6 => {
            let n = r.range(28, 33);
            let m = markish(u, r);
            t.extend(core::iter::repeat(m).take(n))
        }
        _ => {
            let c = r.pick(&u.hangul);
            t.extend(u.nfd1(c).iter())
        }
    };
    if r.chance(1, 2) {
        event(r, t)
    }
    stretch(r, t);
    event(r, t);
    if r.chance(1, 2) {
        stretch(r, t);
        if r.chance(1, 2) {
            event(r, t)
        }
    }
}
/// one random text of roughly up to `max` characters
pub fn streamy_bytes(u: &Ucd, r: &mut Rng, out: &mut Vec<u8>) {
    let mut t = vec![];
    streamy(u, r, &mut t);
    for c in t {
        out.extend_from_slice(&(c as u32).to_le_bytes()[..3])
    }
}
pub fn text(u: &Ucd, r: &mut Rng, max: usize) -> Vec<char> {
    let mut t = Vec::new();
    text_into(u, r, max, &mut t);
    t
}
pub fn text_into(u: &Ucd, r: &mut Rng, max: usize, t: &mut Vec<char>) {
    t.clear();
    let style = r.below(17);
    if style >= 14 {
        // (these show something only when they are long enough)
        let n = match r.below(4) {
            0 => r.range(1, 12),
            1 => r.range(8, 48),
            _ => r.range(30, max.max(31)),
        };
        match style {
            14 => ranged(u, r, n, t),
            15 => repeated(u, r, n, t),
            _ => {
                while t.len() < n {
                    padded(u, r, t)
                }
            }
        }
        if r.chance(1, 3) {
            let f = r.pick(&FORMS);
            *t = u.nf_with(f, t, &mut Cov::default());
        }
        return;
    }
    let len = match r.below(8) {
        0..=3 => r.range(1, 6),
        4..=5 => r.range(4, 16),
        6 => r.range(10, 40),
        _ => r.range(20, max.max(21)),
    };
    loop {
        match style {
            0 => t.push(any_char(u, r)),
            1 | 2 => cluster(u, r, t),
            3 | 4 => exploded(u, r, t),
            5 => hangul(u, r, t),
            6 => streamy(u, r, t),
            7 => t.push(scalar(r)),
            8 => match r.below(4) {
                0 => t.push(r.pick(&u.seconds0)),
                1 => {
                    let (a, b, _) = r.pick(&u.pair_list);
                    t.extend([a, b])
                }
                2 => t.push(r.pick(&u.firsts)),
                _ => t.push(markish(u, r)),
            },
            9 => sortedrun(u, r, t),
            10 => words(u, r, t),
            13 => t.extend(pattern(u, r)),
            _ => match r.below(6) {
                0 => cluster(u, r, t),
                1 => exploded(u, r, t),
                2 => hangul(u, r, t),
                3 => words(u, r, t),
                4 => streamy(u, r, t),
                _ => t.push(any_char(u, r)),
            },
        }
        if t.len() >= len {
            break;
        }
    }
    // a third of the texts are brought into some form first, half of those then disturbed in one place
    if r.chance(1, 3) {
        let f = r.pick(&FORMS);
        let mut cov = Cov::default();
        *t = u.nf_with(f, t, &mut cov);
        if r.chance(1, 3) {
            *t = u.stream_safe(t, &mut cov)
        }
        if r.chance(1, 2) {
            disturb(u, r, t)
        }
    }
}
pub fn disturb(u: &Ucd, r: &mut Rng, t: &mut Vec<char>) {
    if t.is_empty() {
        return;
    }
    let i = r.below(t.len());
    match r.below(6) {
        0 => t.insert(i, any_char(u, r)),
        1 => {
            t.remove(i);
        }
        2 => {
            if i + 1 < t.len() {
                t.swap(i, i + 1)
            }
        }
        3 => t.insert(i, markish(u, r)),
        4 => {
            let d: Vec<char> = u.dec1(t[i], r.chance(1, 2)).to_vec();
            t.splice(i..=i, d);
        }
        _ => t[i] = any_char(u, r),
    }
}
/// G4
pub fn random(c: &Ctx, name: &str, cases: usize, max: usize, f: &Case) {
    let per = 500;
    let units = ((cases as f64 * c.scale) as usize).div_ceil(per);
    parallel(c, name, units, &|w, _| {
        let mut t = vec![];
        for _ in 0..per {
            if w.c.stop.load(std::sync::atomic::Ordering::Relaxed) {
                return;
            }
            let mut r = w.rng.clone();
            text_into(w.u, &mut r, max, &mut t);
            w.rng = r;
            w.case(&t, f);
        }
    });
}

/// G5: one long text of about `n` characters in a given hostile shape
pub const SHAPES: usize = 16;
pub fn long(u: &Ucd, r: &mut Rng, n: usize, shape: usize) -> Vec<char> {
    let mut t = vec![];
    match shape {
        // one starter, n marks all of one class
        0 => {
            t.push('a');
            let k = r.pick(&[220usize, 230, 202, 1, 240]);
            let k = if u.by_ccc[k].is_empty() { u.cc(r.pick(&u.nonst)) as usize } else { k };
            let v = &u.by_ccc[k];
            t.extend((0..n).map(|_| r.pick(v)))
        }
        // marks in random order of all classes
        1 => {
            t.push(starterish(u, r));
            t.extend((0..n).map(|_| r.pick(&u.nonst)))
        }
        // descending classes
        2 => {
            t.push('o');
            let mut v: Vec<char> = (0..n).map(|_| r.pick(&u.nonst)).collect();
            v.sort_by_key(|&c| 255 - u.cc(c));
            t.extend(v)
        }
        // ascending classes
        3 => {
            t.push('o');
            let mut v: Vec<char> = (0..n).map(|_| r.pick(&u.nonst)).collect();
            v.sort_by_key(|&c| u.cc(c));
            t.extend(v)
        }
        // no starter at all
        4 => t.extend((0..n).map(|i| if i % 2 == 0 { '\u{301}' } else { '\u{316}' })),
        // a long run, then a mark that comes first and composes
        5 => {
            t.push('c');
            t.extend((0..n).map(|_| r.pick(&['\u{301}', '\u{316}', '\u{302}', '\u{345}'])));
            t.push('\u{327}');
            t.push('b')
        }
        // maximally expanding characters
        6 => t.extend((0..n).map(|_| r.pick(&['\u{FDFA}', '\u{1F82}', '\u{FB2C}', '\u{344}', '\u{33C2}', '\u{3300}', '\u{1D160}']))),
        // starters that keep composing, ASCII
        7 => {
            while t.len() < n {
                hangul(u, r, &mut t)
            }
        }
        8 => t.extend((0..n).map(|i| ch(0x61 + (i % 26) as u32))),
        9 => t.extend((0..n).map(|_| any_char(u, r))),
        10 => t.extend((0..n).map(|_| scalar(r))),
        11 => {
            while t.len() < n {
                cluster(u, r, &mut t)
            }
        }
        12 => {
            while t.len() < n {
                exploded(u, r, &mut t)
            }
        }
        14 => repeated(u, r, n, &mut t),
        15 => ranged(u, r, n, &mut t),
        _ => {
            while t.len() < n {
                streamy(u, r, &mut t);
                words(u, r, &mut t)
            }
        }
    }
    t
}
pub fn lengths(c: &Ctx, name: &str, thorough_big: bool, f: &Case) {
    let mut jobs = vec![];
    let mut ls: Vec<usize> = vec![];
    for b in [3usize, 4, 7, 8, 15, 16, 31, 32, 47, 63, 64, 127, 128, 129, 191, 192, 254, 255, 256, 257, 258, 383, 511, 512, 513, 767, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193] {
        ls.push(b)
    }
    for s in 0..SHAPES {
        for &l in &ls {
            jobs.push((s, l))
        }
    }
    for l in [16384usize, 32767, 32768, 65534, 65535, 65536, 65537, 70000] {
        for s in [0, 1, 2, 4, 5, 9, 11] {
            jobs.push((s, l))
        }
    }
    for s in 0..SHAPES {
        jobs.push((s, 131073))
    }
    if thorough_big {
        for s in 0..SHAPES {
            for l in [262143usize, 262145, 1048577, 2000003] {
                jobs.push((s, l))
            }
        }
    }
    jobs.reverse();
    parallel(c, name, jobs.len(), &|w, i| {
        let (s, l) = jobs[i];
        let reps = if l < 600 { 6 } else { 1 };
        for _ in 0..reps {
            let mut r = w.rng.clone();
            let t = long(w.u, &mut r, l, s);
            w.rng = r;
            w.case(&t, f);
        }
    });
}

/// G7: every composite fully exploded, with one extra mark of each class at each position, in source order and sorted
pub fn exploded_all(c: &Ctx, name: &str, frac: f64, f: &Case) {
    let u = c.u;
    let n = u.composites.len();
    let per = 16;
    let mut marks: Vec<char> = u.ccc_reps.clone();
    marks.extend(u.seconds.iter().filter(|&&c| u.cc(c) == 0));
    marks.sort();
    marks.dedup();
    let keep = (frac * 1024.0) as usize;
    parallel(c, name, n.div_ceil(per), &|w, i| {
        for &k in &u.composites[i * per..(i * per + per).min(n)] {
            if w.c.stop.load(std::sync::atomic::Ordering::Relaxed) {
                return;
            }
            let full = u.nfd1(k).to_vec();
            let raw = u.canon_raw[&(k as u32)].clone();
            let mut bases = vec![full];
            if bases[0] != raw {
                bases.push(raw)
            }
            bases.push(vec![k]);
            for b in &bases {
                for p in 0..=b.len() {
                    for &m in &marks {
                        if keep < 1024 && w.rng.below(1024) >= keep {
                            continue;
                        }
                        let mut t = b.clone();
                        t.insert(p, m);
                        w.case(&t, f);
                    }
                }
            }
        }
    });
}

/// the standard mixture; `cost` is the relative price of one case of this property (1 = four forms and the model)
pub struct Plan {
    pub contexts: usize,
    pub stride: u32,
    pub pairs: f64,
    pub explode: f64,
    pub alpha_budget: usize,
    pub alpha_random: usize,
    pub random: usize,
    pub max: usize,
    pub lengths: bool,
}
pub fn plan(c: &Ctx, cost: f64) -> Plan {
    if c.thorough {
        Plan {
            contexts: 16,
            stride: if cost > 20.0 { 5 } else { 1 },
            pairs: (3.0 / cost).min(1.0),
            explode: (3.0 / cost).min(1.0),
            alpha_budget: if cost > 10.0 { 60_000 } else { 2_000_000 },
            alpha_random: 300,
            random: (150_000_000.0 / cost) as usize,
            max: 300,
            lengths: true,
        }
    } else if c.scale < 1.0 {
        // many libraries to judge: a thin slice of everything
        Plan { contexts: 3, stride: 7, pairs: 0.1, explode: 0.1, alpha_budget: 4_000, alpha_random: 40, random: (4_000_000.0 / cost) as usize, max: 60, lengths: false }
    } else {
        Plan {
            contexts: if cost > 4.0 { 6 } else { 12 },
            stride: if cost > 4.0 { 17 } else { 1 },
            pairs: (0.5 / cost).min(1.0),
            explode: (0.5 / cost).min(1.0),
            alpha_budget: if cost > 10.0 { 4_000 } else { 60_000 },
            alpha_random: 40,
            random: (4_000_000.0 / cost) as usize,
            max: 200,
            lengths: true,
        }
    }
}
pub fn standard(c: &Ctx, p: &Plan, f: &Case) {
    scalars_in_context(c, "every-scalar", p.contexts, p.stride, f);
    if p.pairs > 0.0 {
        pairs(c, "pairs", p.pairs, f);
    }
    if p.explode > 0.0 {
        exploded_all(c, "exploded-composites", p.explode, f);
    }
    alphabets(c, "small-alphabets", p.alpha_budget, p.alpha_random, f);
    random(c, "random-text", p.random, p.max, f);
    // text just long enough for buffers to grow and shortcuts to pay
    parallel(c, "repeated and confined text", if p.lengths { (p.random / 40).max(400) } else { p.random / 200 } / 20, &|w, _| {
        let mut t = vec![];
        for i in 0..20 {
            if w.c.stop.load(std::sync::atomic::Ordering::Relaxed) {
                return;
            }
            let mut r = w.rng.clone();
            t.clear();
            let n = r.pick(&[40, 64, 100, 150, 256, 300, 700, 1100]);
            if i % 2 == 0 {
                repeated(w.u, &mut r, n, &mut t)
            } else {
                ranged(w.u, &mut r, n, &mut t)
            }
            w.rng = r;
            w.case(&t, f);
        }
    });
    if p.lengths {
        let n = p.random / if c.thorough { 40_000 } else { 5_000 };
        parallel(c, "events far apart", n.max(100) / 4, &|w, _| {
            let mut t = vec![];
            for _ in 0..4 {
                if w.c.stop.load(std::sync::atomic::Ordering::Relaxed) {
                    return;
                }
                let mut r = w.rng.clone();
                t.clear();
                eventful(w.u, &mut r, &mut t);
                w.rng = r;
                w.case(&t, f);
            }
        });
        lengths(c, "long-runs", c.thorough, f);
    }
}
pub fn form_of(i: usize) -> Form {
    FORMS[i]
}
