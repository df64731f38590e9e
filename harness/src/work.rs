//! C20: runs one operation on one text shape, for an instruction counter outside.
use crate::each_iter;
use crate::ops;
use crate::ucd::FORMS;
use unicode_normalization::UnicodeNormalization;

pub const SHAPES: [&str; 19] = [
    "one class of marks after a starter",
    "descending classes",
    "alternating classes",
    "random classes",
    "marks without a starter",
    "blocked composing marks",
    "maximal compatibility expansion",
    "decomposing non-starters",
    "composing Hangul jamo",
    "starters composing with starters",
    "plain ASCII",
    "stream-safe clusters",
    "long runs separated by starters",
    "CJK variants",
    "normalised text with Maybe characters",
    "unassigned and supplementary",
    "a long run, then short clusters",
    "short clusters, then a long run",
    "runs of doubling length",
];
/// shapes from 100 on: a random short pattern repeated, two patterns one after the other, or a pattern whose blocks grow
fn pattern(shape: usize, n: usize, seed: u64) -> Vec<char> {
    let mut r = crate::rng::Rng::new(seed ^ crate::rng::mix(shape as u64));
    const POOL: [char; 40] = [
        'a', 'e', 'x', '\u{301}', '\u{300}', '\u{316}', '\u{327}', '\u{345}', '\u{344}', '\u{F71}', '\u{F73}', '\u{34F}', '\u{E9}', '\u{1EC7}', '\u{1100}', '\u{1161}', '\u{11A8}',
        '\u{AC00}', '\u{AC01}', '\u{1611E}', '\u{1611F}', '\u{16121}', '\u{9C7}', '\u{9BE}', '\u{FDFA}', '\u{F900}', '\u{FB2C}', '\u{3099}', '\u{304B}', '\u{FF76}', '\u{FF9E}',
        '\u{E000}', '\u{1D160}', '\u{1D165}', '\u{338}', '\u{5B0}', '\u{94D}', '\u{20}', '\u{4E00}', '\u{16D67}',
    ];
    let mk = |r: &mut crate::rng::Rng| -> Vec<char> { (0..r.range(1, 9)).map(|_| if r.chance(1, 3) { r.pick(&['\u{301}', '\u{316}', '\u{327}', '\u{345}', '\u{334}']) } else { r.pick(&POOL) }).collect() };
    let (a, b) = (mk(&mut r), mk(&mut r));
    let mut t = vec![];
    match shape % 4 {
        0 | 1 => t.extend(a.iter().copied().cycle().take(n)),
        2 => {
            t.extend(a.iter().copied().cycle().take(n / 2));
            t.extend(b.iter().copied().cycle().take(n - n / 2))
        }
        _ => {
            // blocks of about sqrt(n)
            let k = (n as f64).sqrt() as usize;
            while t.len() < n {
                t.extend(a.iter().copied().cycle().take(k));
                t.extend(b.iter().copied().cycle().take(k));
            }
            t.truncate(n)
        }
    }
    t
}
fn text(shape: usize, n: usize, seed: u64) -> Vec<char> {
    if shape >= 100 {
        return pattern(shape, n, seed);
    }
    let mut x = 12345u64;
    let mut rnd = move |k: usize| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((x >> 33) as usize) % k
    };
    let cls = ['\u{334}', '\u{93C}', '\u{3099}', '\u{94D}', '\u{5B0}', '\u{5B4}', '\u{64B}', '\u{651}', '\u{711}', '\u{C55}', '\u{E38}', '\u{F71}', '\u{321}', '\u{316}', '\u{59A}', '\u{302E}', '\u{1D16D}', '\u{5AE}', '\u{301}', '\u{315}', '\u{35C}', '\u{35D}', '\u{345}'];
    let k = cls.len();
    let mut t = vec![];
    match shape {
        0 => {
            t.push('a');
            t.extend((0..n).map(|_| '\u{301}'))
        }
        1 => {
            t.push('a');
            t.extend((0..n).map(|i| cls[k - 1 - i * k / n]))
        }
        2 => {
            t.push('a');
            t.extend((0..n).map(|i| if i % 2 == 0 { '\u{301}' } else { '\u{316}' }))
        }
        3 => {
            t.push('a');
            t.extend((0..n).map(|_| cls[rnd(k)]))
        }
        4 => t.extend((0..n).map(|i| cls[(i * 7) % k])),
        5 => {
            t.push('q');
            t.extend((0..n).map(|i| ['\u{301}', '\u{302}', '\u{327}', '\u{304}'][i % 4]))
        }
        6 => t.extend((0..n).map(|i| ['\u{FDFA}', '\u{33C2}', '\u{1F82}'][i % 3])),
        7 => {
            t.push('a');
            t.extend((0..n).map(|i| ['\u{344}', '\u{F73}', '\u{F81}', '\u{F75}'][i % 4]))
        }
        8 => t.extend((0..n).map(|i| ['\u{1112}', '\u{1161}', '\u{11AB}', '\u{1100}', '\u{1173}', '\u{11AF}'][i % 6])),
        9 => t.extend((0..n).map(|i| ['\u{1611E}', '\u{1611E}', '\u{1611F}', '\u{16D67}', '\u{16D67}', '\u{9C7}', '\u{9BE}', '\u{113C2}', '\u{113C2}'][i % 9])),
        10 => t.extend((0..n).map(|i| (b'a' + (i % 26) as u8) as char)),
        11 => t.extend((0..n).map(|i| if i % 30 == 0 { 'e' } else { cls[(i * 5) % k] })),
        12 => t.extend((0..n).map(|i| if i % (n / 4).max(2) == 0 { 'o' } else { cls[(i * 11) % k] })),
        13 => t.extend((0..n).map(|i| ['\u{F900}', '\u{2F800}', '\u{FA0E}', '\u{4E00}'][i % 4])),
        14 => t.extend((0..n).map(|i| ['x', '\u{301}', '\u{E9}', '\u{1161}'][i % 4])),
        16 | 17 => {
            // (what a long run leaves behind must not burden what follows)
            let run: Vec<char> = std::iter::once('q').chain((0..n / 2).map(|i| cls[(i * 7) % k])).collect();
            let rest = (0..n - n / 2).map(|i| ['x', 'e', '\u{301}', '\u{E9}', '\u{323}', '\u{AC01}', 'y', '\u{1EC7}', '\u{344}', '\u{1161}'][i % 10]);
            if shape == 16 {
                t.extend(run);
                t.extend(rest)
            } else {
                t.extend(rest);
                t.extend(run)
            }
        }
        18 => {
            let mut l = 1;
            while t.len() < n {
                t.push('o');
                let m = l.min(n - t.len());
                t.extend((0..m).map(|i| cls[(i * 5) % k]));
                l *= 2
            }
        }
        _ => t.extend((0..n).map(|i| ['\u{E000}', '\u{10FFFF}', '\u{1F600}', '\u{378}', '\u{1D160}'][i % 5])),
    }
    t
}
pub fn main(a: &[String]) {
    if a.first().map(|s| s.as_str()) == Some("shapes") {
        for (i, s) in SHAPES.iter().enumerate() {
            println!("{}\t{}", i, s)
        }
        return;
    }
    let op: usize = a[0].parse().unwrap();
    let shape: usize = a[1].parse().unwrap();
    let n: usize = a[2].parse().unwrap();
    let seed: u64 = a.get(3).map_or(1, |s| s.parse().unwrap());
    let s = text(shape, n, seed);
    if a.last().map(|s| s.as_str()) == Some("show") {
        println!("{}", crate::rt::hex(&s[..s.len().min(60)]));
        return;
    }
    let st = ops::string(&s);
    let mut h = 0u64;
    let mut k = 0;
    match op {
        // 99: the baseline, everything but the library
        99 => {
            for &c in &s {
                h = h.wrapping_mul(31).wrapping_add(c as u64)
            }
        }
        0..=5 => {
            each_iter!(s.iter().copied(), _name, it, {
                if k == op {
                    let mut it = it;
                    while let Some(c) = it.next() {
                        h = h.wrapping_mul(31).wrapping_add(c as u64)
                    }
                }
                k += 1;
            });
        }
        6..=9 => h = ops::is(FORMS[op - 6], &st) as u64,
        10 => h = ops::is_ss(false, &st) as u64,
        11 => h = ops::is_ss(true, &st) as u64,
        12 => {
            // checks on the text's own forms, where the authoritative comparison runs to the end
            for f in FORMS {
                let t = ops::nfs(f, &st);
                h ^= ops::is(f, &t) as u64;
            }
        }
        13 => {
            for f in FORMS {
                h ^= ops::quick(f, s.iter().copied()) as u64
            }
            h ^= ops::quick_ss(true, s.iter().copied()) as u64 ^ ops::quick_ss(false, s.iter().copied()) as u64
        }
        // Display and a clone half-way
        14 => {
            let mut it = st.nfkc();
            for _ in 0..n / 2 {
                it.next();
            }
            h = it.clone().count() as u64 + it.to_string().len() as u64;
        }
        15 => {
            // stacked
            h = st.nfkd().stream_safe().nfc().count() as u64
        }
        16 => {
            // size_hint at every step
            let mut it = s.iter().copied().nfkd();
            loop {
                h = h.wrapping_add(it.size_hint().0 as u64);
                if it.next().is_none() {
                    break;
                }
            }
            let mut it = s.iter().copied().nfkc();
            loop {
                h = h.wrapping_add(it.size_hint().0 as u64);
                if it.next().is_none() {
                    break;
                }
            }
        }
        17 => {
            // stream-safe checks on text that passes them, where they run to the end
            for f in [crate::ucd::Form::Nfd, crate::ucd::Form::Nfc] {
                let t = ops::nfs(f, &ops::string(&ops::ss(&st)));
                h ^= ops::is_ss(f.composed(), &t) as u64;
            }
        }
        18 => {
            // other ways of consuming
            h = st.nfd().count() as u64 ^ st.nfkc().last().map_or(0, |c| c as u64) ^ st.nfc().fold(0, |a, c| a ^ c as u64) ^ st.nfkd().max().map_or(0, |c| c as u64);
            h ^= st.stream_safe().count() as u64 ^ st.cjk_compat_variants().last().map_or(0, |c| c as u64);
        }
        19 => {
            // jumping ahead, again and again
            each_iter!(s.iter().copied(), _name, it, {
                let mut it = it;
                while let Some(c) = it.nth(6) {
                    h = h.wrapping_add(c as u64)
                }
            });
            let mut it = st.nfc();
            while let Some(c) = it.by_ref().take(3).last() {
                h = h.wrapping_add(c as u64)
            }
        }
        _ => panic!("op"),
    }
    println!("{}", h);
}
