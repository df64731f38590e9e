//! Coverage-guided workload: libFuzzer (the compiler's runtime) chooses texts by what they make the library and the
//! model do; the monitors of the property judge every one of them.
use crate::gen;
use crate::rng::Rng;
use crate::rt::{attach, detach, finish, Ctx, W};
use std::ffi::CString;
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};

extern "C" {
    fn LLVMFuzzerRunDriver(argc: *mut i32, argv: *mut *mut *mut i8, cb: extern "C" fn(*const u8, usize) -> i32) -> i32;
    fn atexit(f: extern "C" fn()) -> i32;
    fn _exit(c: i32) -> !;
}
static WORKER: AtomicPtr<W<'static>> = AtomicPtr::new(std::ptr::null_mut());

/// three bytes per item: 21 bits of scalar value, 3 bits of repetition (1, 2, 4 .. 128 times)
fn decode(d: &[u8]) -> Vec<char> {
    let mut t = vec![];
    for b in d.chunks_exact(3) {
        let x = b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16;
        let Some(c) = char::from_u32(x & 0x1F_FFFF) else { continue };
        for _ in 0..1usize << (x >> 21) {
            t.push(c)
        }
        if t.len() > 9000 {
            break;
        }
    }
    t
}
fn enc(t: &[char], out: &mut Vec<u8>) {
    for &c in t {
        out.extend_from_slice(&(c as u32).to_le_bytes()[..3])
    }
}
extern "C" fn one(p: *const u8, n: usize) -> i32 {
    let w = unsafe { &mut *WORKER.load(SeqCst) };
    let d = if n == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(p, n) } };
    let t = decode(d);
    for f in crate::case_of(&w.c.prop) {
        w.case(&t, f);
    }
    if !w.c.viols.lock().unwrap().is_empty() || !w.c.errors.lock().unwrap().is_empty() {
        end();
    }
    0
}
extern "C" fn end() {
    let w = unsafe { &mut *WORKER.load(SeqCst) };
    detach(w);
    let r = finish(w.c);
    unsafe { _exit(r) }
}
#[no_mangle]
pub extern "C" fn LLVMFuzzerCustomMutator(p: *mut u8, n: usize, max: usize, seed: u32) -> usize {
    let w = unsafe { &*WORKER.load(SeqCst) };
    let u = w.u;
    let d = if n == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(p, n) } };
    let mut r = Rng::new(seed as u64);
    let mut items: Vec<[u8; 3]> = d.chunks_exact(3).map(|b| [b[0], b[1], b[2]]).collect();
    for _ in 0..r.range(1, 4) {
        let k = items.len();
        let i = r.below(k + 1);
        let mut add = vec![];
        match r.below(12) {
            0 | 1 => enc(&[gen::any_char(u, &mut r)], &mut add),
            2 => gen_into(u, &mut r, &mut add),
            3 if k > 0 => {
                let j = r.below(k);
                let m = r.range(1, 8).min(k - j);
                items.drain(j..j + m);
            }
            4 if k > 1 => {
                let (a, b) = (r.below(k), r.below(k));
                items.swap(a, b)
            }
            5 | 6 if k > 0 => {
                let j = r.below(k);
                items[j][2] = items[j][2] & 0x1F | (r.below(8) as u8) << 5
            }
            7 if k > 0 => {
                // a slice again, somewhere else
                let j = r.below(k);
                let m = r.range(1, 40).min(k - j);
                for x in &items[j..j + m] {
                    add.extend_from_slice(x)
                }
            }
            8 if k > 0 => {
                let j = r.below(k);
                let mut e = vec![];
                enc(&[gen::any_char(u, &mut r)], &mut e);
                items[j] = [e[0], e[1], e[2]];
            }
            9 if k > 0 => {
                // a neighbour in code point order
                let j = r.below(k);
                let b = items[j];
                let x = (b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16) & 0x1F_FFFF;
                let y = match r.below(4) {
                    0 => x.wrapping_add(1),
                    1 => x.wrapping_sub(1),
                    2 => x ^ 1 << r.below(21),
                    _ => x ^ 0x10000,
                };
                if char::from_u32(y).is_some() {
                    items[j] = [y as u8, (y >> 8) as u8, (y >> 16) as u8 & 0x1F | b[2] & 0xE0]
                }
            }
            10 => gen::streamy_bytes(u, &mut r, &mut add),
            _ => enc(&[gen::any_char(u, &mut r), gen::any_char(u, &mut r)], &mut add),
        }
        let at = i.min(items.len());
        items.splice(at..at, add.chunks_exact(3).map(|b| [b[0], b[1], b[2]]));
    }
    let out: Vec<u8> = items.concat();
    let m = out.len().min(max) / 3 * 3;
    unsafe { std::ptr::copy_nonoverlapping(out.as_ptr(), p, m) };
    m
}
fn gen_into(u: &crate::ucd::Ucd, r: &mut Rng, out: &mut Vec<u8>) {
    let mut t = gen::text(u, r, 24);
    t.truncate(60);
    enc(&t, out)
}
pub fn run(c: &'static Ctx, seconds: &str, dir: &str) -> ! {
    let w = Box::leak(Box::new(attach(c, "coverage-guided")));
    WORKER.store(w, SeqCst);
    let args: Vec<CString> = [
        "mon".to_string(),
        format!("-max_total_time={}", seconds),
        format!("-seed={}", c.seed % 4_000_000_000 + 1),
        "-max_len=1200".into(),
        "-len_control=20".into(),
        "-timeout=300".into(),
        "-rss_limit_mb=3500".into(),
        "-detect_leaks=0".into(),
        "-reload=1".into(),
        "-print_final_stats=1".into(),
        "-use_value_profile=1".into(),
        "-handle_segv=0".into(),
        "-handle_abrt=0".into(),
        dir.to_string(),
    ]
    .into_iter()
    .map(|s| CString::new(s).unwrap())
    .collect();
    let mut p: Vec<*mut i8> = args.iter().map(|s| s.as_ptr() as *mut i8).collect();
    p.push(std::ptr::null_mut());
    let mut n = args.len() as i32;
    let mut pp = p.as_mut_ptr();
    unsafe {
        atexit(end);
        LLVMFuzzerRunDriver(&mut n, &mut pp, one);
    }
    end();
    unreachable!()
}
