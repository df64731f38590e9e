//! C17, first use: whatever the library might build on first use is touched for the first time by several threads at once,
//! in many short-lived processes. Each thread logs what it got; a sequential repetition afterwards must give the same.
use crate::ops::{is, is_ss, quick, quick_ss};
use crate::rng::{mix, Rng};
use crate::ucd::FORMS;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use unicode_normalization::{char as uc, UnicodeNormalization};

const KINDS: usize = 16;
fn some_char(r: &mut Rng) -> char {
    const BLOCKS: [(u32, u32); 22] = [
        (0x300, 0x70), (0x300, 0x70), (0xA0, 0x60), (0x1E00, 0x100), (0xAC00, 0x2BA4), (0x1100, 0x100), (0xF900, 0x100), (0x2F800, 0x21E), (0x3040, 0xC0), (0xFF00, 0xF0), (0x600, 0x100),
        (0x900, 0x80), (0xFB00, 0x500), (0x1D400, 0x400), (0x1D15E, 0x70), (0x11099, 0x30), (0x41, 0x3A), (0x100, 0x180), (0x2000, 0x200), (0x340, 0x10), (0xE0100, 0xF0), (0x16100, 0x80),
    ];
    loop {
        let (b, n) = r.pick(&BLOCKS);
        if let Some(c) = char::from_u32(b + r.below(n as usize) as u32) {
            return c;
        }
    }
}
fn call(kind: usize, r: &mut Rng) -> u64 {
    let c = some_char(r);
    let d = some_char(r);
    let mut t: Vec<char> = if kind < 7 { vec![] } else { (0..r.range(1, 6)).map(|_| some_char(r)).collect() };
    if kind >= 7 && r.chance(1, 5) {
        // a run of marks, sometimes a long one
        const MARKS: [char; 8] = ['\u{301}', '\u{316}', '\u{327}', '\u{345}', '\u{334}', '\u{344}', '\u{302}', '\u{59A}'];
        let n = [8, 20, 40, 80, 300][r.below(5)];
        let n = r.range(n / 2, n);
        let one = r.chance(1, 3);
        t.extend((0..n).map(|i| if one { MARKS[n % 8] } else { MARKS[(i * 5 + n) % 8] }));
        t.push(d)
    }
    let s: String = t.iter().collect();
    let mut h = mix(kind as u64);
    let mut eat = |x: u64| h = mix(h ^ x);
    match kind {
        0 => eat(uc::canonical_combining_class(c) as u64),
        1 => eat(uc::is_combining_mark(c) as u64),
        2 => eat(uc::is_public_assigned(c) as u64),
        3 => uc::decompose_canonical(c, |x| eat(x as u64)),
        4 => uc::decompose_compatible(c, |x| eat(x as u64)),
        5 => uc::decompose_cjk_compat_variants(c, |x| eat(x as u64)),
        6 => eat(uc::compose(c, d).map_or(0, |x| x as u64)),
        7 => s.nfd().for_each(|x| eat(x as u64)),
        8 => s.nfkd().for_each(|x| eat(x as u64)),
        9 => s.nfc().for_each(|x| eat(x as u64)),
        10 => s.nfkc().for_each(|x| eat(x as u64)),
        11 => s.stream_safe().for_each(|x| eat(x as u64)),
        12 => s.cjk_compat_variants().for_each(|x| eat(x as u64)),
        13 => FORMS.iter().for_each(|&f| eat(quick(f, s.chars()) as u64)),
        14 => FORMS.iter().for_each(|&f| eat(is(f, &s) as u64)),
        _ => {
            eat(is_ss(false, &s) as u64);
            eat(is_ss(true, &s) as u64);
            eat(quick_ss(false, s.chars()) as u64);
            eat(quick_ss(true, s.chars()) as u64)
        }
    }
    h
}
/// `mon first SEED`: one process
fn one(seed: u64) -> i32 {
    const N: usize = 4;
    let calls = 24;
    let kind_of = move |t: usize, i: usize| -> usize {
        let mut r = Rng::new(mix(seed ^ 0x51));
        let k = r.below(KINDS);
        // one kind on all threads first (all of them use the same tables), or each thread its own
        match seed % 3 {
            0 | 1 if i < 12 => k,
            2 if i < 12 => (k + t * 5) % KINDS,
            _ => (k + t + i * 7) % KINDS,
        }
    };
    let args = move |t: usize, i: usize| Rng::new(mix(seed ^ mix((t * 1000 + i) as u64 + 1)));
    let ready = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..N)
        .map(|t| {
            let ready = ready.clone();
            std::thread::spawn(move || {
                let mut v = Vec::with_capacity(calls);
                let delay = mix(seed ^ mix(t as u64 ^ 0xD)) % [1, 40, 400, 4000][(seed / 3 % 4) as usize];
                ready.fetch_add(1, SeqCst);
                while ready.load(SeqCst) < N {
                    std::hint::spin_loop()
                }
                for _ in 0..delay {
                    std::hint::spin_loop()
                }
                for i in 0..calls {
                    v.push(call(kind_of(t, i), &mut args(t, i)))
                }
                v
            })
        })
        .collect();
    let got: Vec<Vec<u64>> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
    for (t, v) in got.iter().enumerate() {
        for i in 0..calls {
            let k = kind_of(t, i);
            let e = call(k, &mut args(t, i));
            if v.get(i) != Some(&e) {
                println!("MISMATCH call {} (kind {}) on thread {} of process {}: {:?}, afterwards {:x}", i, k, t, seed, v.get(i), e);
                return 3;
            }
        }
    }
    println!("FIRST {}", got.iter().flatten().fold(0, |a, x| mix(a ^ x)));
    0
}
pub fn main(a: &[String]) {
    if a[0] != "many" {
        std::process::exit(one(a[0].parse().unwrap()));
    }
    // `mon first many SEED COUNT SECONDS`
    let (seed, n, secs): (u64, usize, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let exe = std::env::current_exe().unwrap();
    let next = Arc::new(AtomicUsize::new(0));
    let t0 = std::time::Instant::now();
    let hs: Vec<_> = (0..6)
        .map(|_| {
            let (exe, next) = (exe.clone(), next.clone());
            std::thread::spawn(move || {
                let mut done = 0;
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n || t0.elapsed().as_secs() >= secs {
                        return done;
                    }
                    let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
                    let o = std::process::Command::new(&exe).args(["first", &s.to_string()]).output().expect("harness: cannot start a process");
                    let t = String::from_utf8_lossy(&o.stdout).to_string();
                    if !o.status.success() || !t.contains("FIRST") {
                        next.store(n, SeqCst);
                        println!("BAD\t{}\t{}\t{} {}", s, o.status, t.trim(), String::from_utf8_lossy(&o.stderr).replace('\n', " "));
                        return done;
                    }
                    done += 1;
                }
            })
        })
        .collect();
    let done: usize = hs.into_iter().map(|h| h.join().unwrap()).sum();
    println!("PROCESSES\t{}", done);
}
