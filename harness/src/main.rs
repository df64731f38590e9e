#![allow(dead_code)]
//! Runtime monitors for unicode-normalization. `mon <PROPERTY> [options]`; see ../../DESIGN.md.
mod conc;
#[cfg(feature = "fuzz")]
mod fuzz;
mod first;
mod gen;
mod iter_checks;
mod marathon;
mod ops;
mod rng;
mod rt;
mod text_checks;
mod ucd;
mod mips;
mod work;
use rt::*;
use std::collections::BTreeMap;
use std::sync::atomic::AtomicBool;
use std::sync::Mutex;

#[global_allocator]
static A: rt::Counting = rt::Counting;

fn seq(s: &str) -> Vec<char> {
    s.split_whitespace().map(|x| char::from_u32(u32::from_str_radix(x, 16).expect("hex")).expect("scalar")).collect()
}
type CaseFn = dyn Fn(&mut W, &[char]) -> Res + Sync;
/// the monitors of a property on one text
pub fn case_of(prop: &str) -> &'static [&'static CaseFn] {
    match prop {
        "C01" => &[&text_checks::c01],
        "C02" => &[&text_checks::c02],
        "C03" => &[&text_checks::c03],
        "C04" => &[&text_checks::c04],
        "C05" => &[&text_checks::c05],
        "C06" => &[&text_checks::c06],
        "C07" => &[&text_checks::c07],
        "C08" => &[&text_checks::c08],
        "C09" => &[&text_checks::c09],
        "C10" => &[&text_checks::c10],
        "C11" => &[&text_checks::c11],
        "C12" => &[&iter_checks::c12],
        "C13" => &[&iter_checks::c13_small, &iter_checks::c13_stream],
        "C14" => &[&iter_checks::c14],
        "C15" => &[&iter_checks::c15],
        "C16" => &[&conc::c16, &conc::compose_all],
        "C17" => &[&conc::send_sync, &conc::c17_interleave, &conc::c17_history, &conc::c17_reentrant],
        "C19" => &[&iter_checks::c19],
        p => panic!("harness: unknown property {}", p),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(1).cloned().unwrap_or_default();
    let sanitized = a.iter().any(|x| x == "--sanitized");
    if prop == "mips" {
        return mips::main(&a[2..]);
    }
    if prop == "first" {
        return first::main(&a[2..]);
    }
    if prop == "work" {
        work::main(&a[2..]);
        return;
    }
    let t0 = std::time::Instant::now();
    install(sanitized);
    let u: &'static ucd::Ucd = Box::leak(Box::new(ucd::Ucd::load(&opt("--data").expect("--data"))));
    if prop == "cases" {
        // texts for the other engines, one per line
        let mut r = rng::Rng::new(opt("--seed").map_or(1, |s| s.parse().expect("seed")));
        let n: usize = opt("--count").map_or(100, |s| s.parse().expect("count"));
        let max: usize = opt("--max").map_or(40, |s| s.parse().expect("max"));
        let long: usize = opt("--long").map_or(0, |s| s.parse().expect("long"));
        use std::io::Write;
        let mut o = std::io::BufWriter::new(std::io::stdout());
        for i in 0..n {
            let mut t = if long > 0 {
                gen::long(u, &mut r, long, i % gen::SHAPES)
            } else if i % 8 == 7 {
                // around the stream-safe limit
                let mut t = vec![];
                gen::streamy(u, &mut r, &mut t);
                t
            } else {
                gen::text(u, &mut r, max)
            };
            if long == 0 && max < 30 && i % 8 != 7 {
                t.truncate(max)
            }
            writeln!(o, "T {}", t.iter().map(|c| format!("{:X}", *c as u32)).collect::<Vec<_>>().join(" ")).unwrap();
        }
        return;
    }
    if prop == "model" {
        // the model's forms of texts read from standard input, for tools/crosscheck.py
        use std::io::BufRead;
        let mut cov = ucd::Cov::default();
        for l in std::io::stdin().lock().lines() {
            let t = seq(&l.unwrap()[2..]);
            let f: Vec<String> = ucd::FORMS.iter().map(|&f| u.nf_with(f, &t, &mut cov).iter().map(|c| format!("{:X}", *c as u32)).collect::<Vec<_>>().join(" ")).collect();
            println!("{}", f.join("|"));
        }
        return;
    }
    let known = opt("--known")
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| {
            t.lines()
                .filter_map(|l| {
                    let f: Vec<&str> = l.split('\t').collect();
                    // finding <TAB> property <TAB> op <TAB> input
                    (f.len() >= 4 && f[0] == "finding" && f[1] == prop).then(|| (f[2].to_string(), seq(f[3])))
                })
                .collect()
        })
        .unwrap_or_default();
    let c = Ctx {
        prop: prop.clone(),
        seed: opt("--seed").map_or(1, |s| s.parse().expect("seed")),
        thorough: opt("--tier").as_deref() == Some("thorough"),
        threads: opt("--threads").map_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()), |s| s.parse().expect("threads")),
        scale: opt("--scale").map_or(1.0, |s| s.parse().expect("scale")),
        u,
        stop: AtomicBool::new(false),
        viols: Mutex::new(vec![]),
        total: Mutex::new(Stats::default()),
        errors: Mutex::new(vec![]),
        only: opt("--only"),
        stack: opt("--stack-kib").map_or(16 << 20, |s| s.parse::<usize>().expect("stack") << 10),
        sanitized,
        maxviol: 5,
        known,
        known_hits: Mutex::new(BTreeMap::new()),
    };
    watchdog();
    #[cfg(feature = "fuzz")]
    if let Some(t) = opt("--fuzz") {
        fuzz::run(Box::leak(Box::new(c)), &t, &opt("--corpus").expect("--corpus"));
    }
    if let Some(i) = opt("--input") {
        let s = seq(&i);
        parallel(&c, "replay", 1, &|w, _| {
            let n = if s.len() > 2000 { 30 } else { 2000 };
            for _ in 0..n {
                if w.c.stop.load(std::sync::atomic::Ordering::SeqCst) {
                    break;
                }
                for f in case_of(&w.c.prop) {
                    w.case(&s, f)
                }
            }
        });
    } else if !(text_checks::run(&c) || iter_checks::run(&c) || conc::run(&c)) {
        eprintln!("unknown property {}", prop);
        std::process::exit(102);
    } else if c.viols.lock().unwrap().is_empty() {
        marathon::run(&c, t0.elapsed().as_secs() < 350)
    }
    println!("STAT\tseconds_x1000\t{}", t0.elapsed().as_millis());
    std::process::exit(finish(&c));
}
