//! Small concurrent program for the race detectors (Miri with many schedules): threads transform the same and
//! different texts, share iterators by reference, pass half-consumed ones on; results compared with the first run.
use std::sync::mpsc::channel;
use std::sync::Arc;
use unicode_normalization::UnicodeNormalization;

fn main() {
    let seed: u64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let base: [&str; 6] = ["e\u{301}\u{316}x", "\u{1E69}\u{FDFA}", "\u{1100}\u{1161}\u{11A8}\u{AC01}", "\u{F900}\u{344}\u{345}", "\u{1611E}\u{1611E}\u{1611F}", "q\u{301}\u{302}\u{303}\u{304}\u{305}\u{323}"];
    let texts: Arc<Vec<String>> = Arc::new((0..4).map(|i| base[(seed as usize * 7 + i * 5) % 6].to_string() + base[(seed as usize + i) % 6]).collect());
    let hashes = |t: &str| -> Vec<u64> {
        let c: Vec<char> = t.chars().collect();
        (0..probe::OPS.len()).map(|op| probe::run_op(op, &c, t)).collect()
    };
    // concurrent first, so that lazily built state (if any) is first touched by several threads at once
    let hs: Vec<_> = (0..3)
        .map(|k| {
            let texts = texts.clone();
            std::thread::spawn(move || {
                let mut r = vec![];
                for i in 0..2 {
                    let j = (k + i) % texts.len();
                    let c: Vec<char> = texts[j].chars().collect();
                    for op in 0..probe::OPS.len() {
                        let op = (op + 5 * k) % probe::OPS.len();
                        r.push((j, op, probe::run_op(op, &c, &texts[j])))
                    }
                }
                r
            })
        })
        .collect();
    let mut got = vec![];
    for h in hs {
        got.extend(h.join().unwrap())
    }
    let exp: Vec<Vec<u64>> = texts.iter().map(|t| hashes(t)).collect();
    let mut bad = 0;
    for (j, op, h) in &got {
        if exp[*j][*op] != *h {
            println!("MISMATCH {} on {:?}", probe::OPS[*op], texts[*j]);
            bad += 1
        }
    }
    // shared by reference
    let mut it = texts[0].nfkc();
    it.next();
    let mut nd = texts[1].nfd();
    nd.next();
    let (a, b): (String, String) = (it.clone().collect(), nd.clone().collect());
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| {
                if it.to_string() != a || nd.clone().collect::<String>() != b || it.size_hint().0 > a.len() {
                    println!("MISMATCH shared iterator");
                    std::process::exit(3)
                }
            });
        }
    });
    // handed over half consumed
    let (tx, rx) = channel();
    let t2 = texts[2].clone();
    let full: String = t2.nfc().collect();
    let h = std::thread::spawn(move || {
        let v: Vec<char> = t2.chars().collect();
        let mut it = v.into_iter().nfc();
        let mut s = String::new();
        s.extend(it.next());
        s.extend(it.next());
        tx.send((it, s)).unwrap();
    });
    let (rest, mut s) = rx.recv().unwrap();
    s.extend(rest);
    h.join().unwrap();
    if s != full {
        println!("MISMATCH iterator finished on another thread");
        bad += 1
    }
    println!("THREADS compared={} bad={}", got.len() + 5, bad);
    if bad > 0 {
        std::process::exit(3)
    }
}
