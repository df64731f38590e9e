//! Runtime of the monitors: worker threads, the per-case guard (panics, runaway CPU, runaway memory, crashes),
//! statistics of what was observed, violations.
use crate::rng::{mix, Rng};
use crate::ucd::{Cov, IdB, Ucd};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

// ---------------------------------------------------------------- counting allocator
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|v| v.set(v.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
fn note(d: i64) {
    let _ = LIVE.try_with(|v| {
        let x = v.get() + d;
        v.set(x);
        let _ = PEAK.try_with(|p| {
            if x > p.get() {
                p.set(x)
            }
        });
        let _ = LIMIT.try_with(|m| {
            if x > m.get() {
                m.set(i64::MAX);
                die("memory", "one call holds more than 1 GiB of heap for this input");
            }
        });
    });
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    if d > 0 {
        let _ = TOTAL.try_with(|c| c.set(c.get() + d as u64));
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Heap {
    pub live: i64,
    pub peak: i64,
    pub calls: u64,
    pub total: u64,
}
/// heap activity of this thread while `f` runs
pub fn heap_of<R>(f: impl FnOnce() -> R) -> (R, Heap) {
    let l0 = LIVE.with(|v| v.get());
    let p0 = PEAK.with(|v| v.replace(l0));
    let c0 = CALLS.with(|v| v.get());
    let t0 = TOTAL.with(|v| v.get());
    let r = f();
    let l1 = LIVE.with(|v| v.get());
    let p1 = PEAK.with(|v| v.get());
    PEAK.with(|v| v.set(p0.max(p1)));
    (
        r,
        Heap { live: l1 - l0, peak: p1 - l0, calls: CALLS.with(|v| v.get()) - c0, total: TOTAL.with(|v| v.get()) - t0 },
    )
}

// ---------------------------------------------------------------- current case, crash and hang reporting
pub const MAXW: usize = 64;
struct Slot {
    seq: AtomicU64,
    ptr: AtomicPtr<char>,
    len: AtomicUsize,
    clock: AtomicI32,
    used: AtomicBool,
}
static SLOTS: [Slot; MAXW] = [const {
    Slot { seq: AtomicU64::new(0), ptr: AtomicPtr::new(std::ptr::null_mut()), len: AtomicUsize::new(0), clock: AtomicI32::new(0), used: AtomicBool::new(false) }
}; MAXW];
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }
extern "C" {
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn sleep(s: u32) -> u32;
    fn sigaction(sig: i32, act: *const SigAct, old: *mut SigAct) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
}
#[repr(C)]
struct SigAct {
    h: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
fn wr(s: &[u8]) {
    unsafe {
        write(1, s.as_ptr() as *const _, s.len());
    }
}
/// async-signal-safe: prints the running case of slot `i` as the violation and ends the process
fn die_slot(i: usize, op: &str, note: &str) -> ! {
    static DYING: AtomicBool = AtomicBool::new(false);
    if DYING.swap(true, SeqCst) {
        // another thread is already reporting and will end the process
        unsafe {
            sleep(20);
            _exit(101)
        }
    }
    wr(b"\nVIOL\t{\"op\":\"");
    wr(op.as_bytes());
    wr(b"\",\"input\":\"");
    if i < MAXW {
        let p = SLOTS[i].ptr.load(Acquire);
        let n = SLOTS[i].len.load(Acquire).min(20000);
        if !p.is_null() {
            for k in 0..n {
                let mut x = unsafe { std::ptr::read(p.add(k) as *const u32) };
                let mut b = [b' '; 9];
                let mut e = 8;
                loop {
                    b[e] = b"0123456789ABCDEF"[(x & 15) as usize];
                    x >>= 4;
                    if x == 0 {
                        break;
                    }
                    e -= 1;
                }
                if k > 0 {
                    e -= 1;
                }
                wr(&b[e..]);
            }
        }
    }
    wr(b"\",\"expected\":\"an answer\",\"got\":\"");
    wr(note.as_bytes());
    wr(b"\"}\n");
    unsafe { _exit(101) }
}
pub fn die(op: &str, note: &str) -> ! {
    die_slot(ME.try_with(|m| m.get()).unwrap_or(usize::MAX), op, note)
}
extern "C" fn on_sig(sig: i32) {
    die(
        "crash",
        match sig {
            11 => "SIGSEGV",
            7 => "SIGBUS",
            4 => "SIGILL",
            8 => "SIGFPE",
            6 => "abort (SIGABRT)",
            _ => "signal",
        },
    )
}
pub fn install(sanitized: bool) {
    if !sanitized {
        for s in [11, 7, 4, 8, 6] {
            // SA_ONSTACK | SA_NODEFER
            let a = SigAct { h: on_sig as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x0800_0000 | 0x4000_0000, restorer: 0 };
            unsafe {
                sigaction(s, &a, std::ptr::null_mut());
            }
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        if ME.with(|m| m.get()) == usize::MAX {
            eprintln!("harness panic: {:?}", PANIC.with(|p| p.borrow().clone()));
        }
    }));
}
thread_local! { static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }
pub fn last_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

// ---------------------------------------------------------------- failures
#[derive(Debug, Clone)]
pub struct Fail {
    pub op: String,
    pub exp: String,
    pub got: String,
    pub note: String,
}
pub type Res = Result<(), Fail>;
pub fn fail(op: impl Into<String>, exp: impl Into<String>, got: impl Into<String>, note: impl Into<String>) -> Res {
    Err(Fail { op: op.into(), exp: exp.into(), got: got.into(), note: note.into() })
}
pub fn hex(s: &[char]) -> String {
    let mut o = String::new();
    for (i, c) in s.iter().enumerate() {
        if i > 0 {
            o.push(' ')
        }
        if i >= 400 {
            o.push_str(&format!("...({} in all)", s.len()));
            break;
        }
        // read as a number: the value may be an invalid char when the code under test is broken
        let x = unsafe { std::ptr::read_volatile(c as *const char as *const u32) };
        o.push_str(&format!("{:04X}", x));
    }
    o
}
fn hex_all(s: &[char]) -> String {
    s.iter().map(|c| format!("{:04X}", unsafe { std::ptr::read_volatile(c as *const char as *const u32) })).collect::<Vec<_>>().join(" ")
}
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

// ---------------------------------------------------------------- statistics
#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64, IdB>,
    pub sigs: HashSet<u64, IdB>,
    pub trivial: u64,
    pub cov: Cov,
    pub n: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}
const DISTINCT_CAP: usize = 1_200_000;
impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        if let Some(x) = self.n.get_mut(k) {
            *x += v
        } else {
            self.n.insert(k.to_string(), v);
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub scale: f64,
    pub u: &'static Ucd,
    pub stop: AtomicBool,
    pub viols: Mutex<Vec<String>>,
    pub total: Mutex<Stats>,
    pub errors: Mutex<Vec<String>>,
    pub sanitized: bool,
    /// run only the groups whose name contains this
    pub only: Option<String>,
    pub stack: usize,
    pub maxviol: usize,
    pub known: Vec<(String, Vec<char>)>,
    pub known_hits: Mutex<BTreeMap<String, u64>>,
}
pub struct W<'a> {
    pub c: &'a Ctx,
    pub u: &'static Ucd,
    pub rng: Rng,
    pub st: Stats,
    pub id: usize,
    pub group: String,
    pub quiet: bool,
}
impl<'a> W<'a> {
    /// structural signature of a text: sequence of (class, composition role) of its characters
    fn observe(&mut self, s: &[char]) {
        let u = self.u;
        let mut h = 0xcbf29ce484222325u64;
        let mut g = 7u64;
        let mut non = false;
        for &c in s {
            let i = c as usize;
            h = (h ^ c as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
            let k = u.ccc[i] as u64 | (u.first[i] as u64) << 8 | (u.second[i] as u64) << 9 | (u.qc[0][i] as u64) << 10 | (u.qc[3][i] as u64) << 12;
            non |= k != 0;
            g = (g ^ k).wrapping_mul(0xD6E8FEB86659FD93).rotate_left(17);
        }
        if non {
            if self.st.distinct.len() < DISTINCT_CAP {
                self.st.distinct.insert(mix(h));
            }
            if self.st.sigs.len() < DISTINCT_CAP {
                self.st.sigs.insert(mix(g));
            }
            let n = self.st.evals;
            if n < 2 || (n.is_power_of_two() && self.st.samples.len() < 24) {
                self.st.samples.push(format!("{}: {}", self.group, hex(&s[..s.len().min(40)])));
            }
        } else {
            self.st.trivial += 1
        }
    }
    fn guarded(&mut self, s: &[char], f: &(dyn Fn(&mut W, &[char]) -> Res + Sync)) -> Res {
        let sl = &SLOTS[self.id];
        sl.ptr.store(s.as_ptr() as *mut char, Release);
        sl.len.store(s.len(), Release);
        sl.seq.fetch_add(1, Release);
        LIMIT.with(|l| l.set(LIVE.with(|v| v.get()) + (1i64 << 30)));
        let r = catch_unwind(AssertUnwindSafe(|| f(self, s)));
        LIMIT.with(|l| l.set(i64::MAX));
        sl.seq.fetch_add(1, Release);
        sl.len.store(0, Release);
        match r {
            Ok(r) => r,
            Err(_) => {
                let (loc, msg) = last_panic();
                if (loc.starts_with("src/") && !msg.starts_with("monitor:")) || msg.starts_with("harness:") {
                    self.c.errors.lock().unwrap().push(format!("panic in the harness at {}: {} on [{}]", loc, msg, hex(s)));
                    self.c.stop.store(true, SeqCst);
                    return Ok(());
                }
                fail("panic", "an answer", format!("panic at {}: {}", loc, msg), "")
            }
        }
    }
    /// run one case under the guard; shrink and record the failure if there is one
    pub fn case(&mut self, s: &[char], f: &(dyn Fn(&mut W, &[char]) -> Res + Sync)) {
        if !self.quiet {
            self.st.evals += 1;
            self.observe(s);
        }
        if let Err(e) = self.guarded(s, f) {
            if self.quiet {
                return;
            }
            self.quiet = true;
            let (s2, e2) = self.shrink(s.to_vec(), e, f);
            self.quiet = false;
            self.report(&s2, &e2, s);
        }
    }
    fn shrink(&mut self, mut s: Vec<char>, mut e: Fail, f: &(dyn Fn(&mut W, &[char]) -> Res + Sync)) -> (Vec<char>, Fail) {
        let mut budget = 3000usize;
        let mut cost = 0usize;
        let mut step = (s.len() / 2).max(1);
        while budget > 0 && !s.is_empty() && cost < 40_000_000 {
            let mut i = 0;
            let mut progress = false;
            while i < s.len() && budget > 0 && cost < 40_000_000 {
                let mut t = s.clone();
                t.drain(i..(i + step).min(s.len()));
                budget -= 1;
                cost += t.len() + 100;
                if let Err(x) = self.guarded(&t, f) {
                    s = t;
                    e = x;
                    progress = true;
                } else {
                    i += step
                }
            }
            if step == 1 && !progress {
                break;
            }
            step = (step / 2).max(1);
        }
        (s, e)
    }
    /// a violation on a text too long to write down: the op says how to build it
    pub fn report_long(&mut self, e: &Fail) {
        let mut v = self.c.viols.lock().unwrap();
        if v.len() < self.c.maxviol {
            v.push(format!(
                "{{\"op\":\"{}\",\"expected\":\"{}\",\"got\":\"{}\",\"note\":\"{}\",\"group\":\"{}\"}}",
                esc(&e.op),
                esc(&e.exp),
                esc(&e.got),
                esc(&e.note),
                esc(&self.group)
            ));
        }
        if v.len() >= self.c.maxviol {
            self.c.stop.store(true, SeqCst)
        }
    }
    pub fn report(&mut self, s: &[char], e: &Fail, orig: &[char]) {
        for (op, t) in &self.c.known {
            if *op == e.op && t == s {
                *self.c.known_hits.lock().unwrap().entry(format!("{} on [{}]", op, hex(s))).or_default() += 1;
                return;
            }
        }
        let mut v = self.c.viols.lock().unwrap();
        if v.len() < self.c.maxviol {
            v.push(format!(
                "{{\"op\":\"{}\",\"input\":\"{}\",\"expected\":\"{}\",\"got\":\"{}\",\"note\":\"{}\",\"group\":\"{}\",\"original_input\":\"{}\"}}",
                esc(&e.op),
                hex_all(&s[..s.len().min(200000)]),
                esc(&e.exp),
                esc(&e.got),
                esc(&e.note),
                esc(&self.group),
                hex(orig)
            ));
        }
        if v.len() >= self.c.maxviol {
            self.c.stop.store(true, SeqCst)
        }
    }
}

/// a long job of worker `id` makes progress (its time is watched from here on)
pub fn tick(id: usize) {
    let s = &SLOTS[id].seq;
    let q = s.load(Acquire);
    s.store(q + 1 + q % 2, Release);
}
pub fn untick(id: usize) {
    let s = &SLOTS[id].seq;
    let q = s.load(Acquire);
    s.store(q + q % 2, Release);
}

/// makes the calling thread a guarded worker
pub fn attach_as<'a>(c: &'a Ctx, group: &str, id: usize) -> W<'a> {
    ME.with(|m| m.set(id));
    let mut cl = 0;
    unsafe {
        pthread_getcpuclockid(pthread_self(), &mut cl);
    }
    SLOTS[id].clock.store(cl, SeqCst);
    SLOTS[id].used.store(true, SeqCst);
    W { c, u: c.u, rng: Rng::new(0), st: Stats::default(), id, group: group.to_string(), quiet: false }
}
#[cfg(feature = "fuzz")]
pub fn attach<'a>(c: &'a Ctx, group: &str) -> W<'a> {
    attach_as(c, group, 0)
}
/// adds what this worker saw to the totals
pub fn detach(w: &mut W) {
    SLOTS[w.id].used.store(false, SeqCst);
    let mut t = w.c.total.lock().unwrap();
    t.evals += w.st.evals;
    t.trivial += w.st.trivial;
    t.distinct.extend(w.st.distinct.iter());
    t.sigs.extend(w.st.sigs.iter());
    for (k, v) in &w.st.n {
        t.add(k, *v)
    }
    t.add(&format!("cases[{}]", w.group), w.st.evals);
    let (a, b) = (&mut t.cov, &w.st.cov);
    a.decomposed += b.decomposed;
    a.reordered += b.reordered;
    a.composed += b.composed;
    a.composed_starters += b.composed_starters;
    a.hangul_composed += b.hangul_composed;
    a.blocked += b.blocked;
    a.excluded += b.excluded;
    a.cgj += b.cgj;
    a.max_run = a.max_run.max(b.max_run);
    let k = t.samples.len();
    if k < 40 {
        t.samples.extend(std::mem::take(&mut w.st.samples).into_iter().rev().take(3));
    }
    ME.with(|m| m.set(usize::MAX));
}

/// Runs `units` of work on all threads; unit i is seeded by (seed, group, i), so results do not depend on scheduling.
pub fn parallel(c: &Ctx, group: &str, units: usize, f: &(dyn Fn(&mut W, usize) + Sync)) {
    if c.stop.load(SeqCst) || units == 0 || c.only.as_ref().is_some_and(|o| !group.contains(o.as_str())) && group != "replay" {
        return;
    }
    let next = AtomicUsize::new(0);
    let gh = group.bytes().fold(c.seed.wrapping_mul(0x9E37), |a, b| mix(a ^ b as u64));
    std::thread::scope(|sc| {
        for id in 0..c.threads.min(units).min(MAXW) {
            let next = &next;
            std::thread::Builder::new()
                .stack_size(c.stack)
                .spawn_scoped(sc, move || {
                    let mut w = attach_as(c, group, id);
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= units || c.stop.load(SeqCst) {
                            break;
                        }
                        w.rng = Rng::new(mix(gh ^ (i as u64).wrapping_mul(0x2545F4914F6CDD1D)));
                        f(&mut w, i);
                    }
                    detach(&mut w);
                })
                .expect("harness: spawn");
        }
    });
}

/// A case that burns more than `HANG` seconds of its own thread's CPU time without answering is a hang
/// (normal cases take micro- to milliseconds): decided on CPU time consumed, never on wall-clock time.
const HANG: f64 = 60.0;
pub fn watchdog() {
    std::thread::spawn(|| {
        let mut seen = [(0u64, 0f64); MAXW];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(1000));
            for i in 0..MAXW {
                let s = &SLOTS[i];
                let q = s.seq.load(Acquire);
                if !s.used.load(SeqCst) || q % 2 == 0 {
                    seen[i] = (q, -1.0);
                    continue;
                }
                let mut t = [0i64; 2];
                if unsafe { clock_gettime(s.clock.load(SeqCst), &mut t) } != 0 {
                    continue;
                }
                let now = t[0] as f64 + t[1] as f64 * 1e-9;
                if seen[i].0 != q || seen[i].1 < 0.0 {
                    seen[i] = (q, now);
                } else if now - seen[i].1 > HANG {
                    die_slot(i, "hang", "no answer within 60 s of CPU time")
                }
            }
        }
    });
}

pub fn finish(c: &Ctx) -> i32 {
    let out = std::io::stdout();
    let mut o = out.lock();
    let t = c.total.lock().unwrap();
    let _ = writeln!(o, "STAT\tevaluations\t{}", t.evals);
    let _ = writeln!(o, "STAT\tdistinct_nontrivial\t{}", t.distinct.len());
    let _ = writeln!(o, "STAT\tdistinct_structures\t{}", t.sigs.len());
    let v = &t.cov;
    for (k, x) in [
        ("model_decomposed_chars", v.decomposed),
        ("model_reorderings", v.reordered),
        ("model_compositions", v.composed),
        ("model_starter_starter_compositions", v.composed_starters),
        ("model_hangul_compositions", v.hangul_composed),
        ("model_blocked_marks", v.blocked),
        ("model_uncomposable_pairs", v.excluded),
        ("model_joiners_inserted", v.cgj),
        ("model_longest_nonstarter_run", v.max_run),
    ] {
        if x > 0 {
            let _ = writeln!(o, "STAT\t{}\t{}", k, x);
        }
    }
    for (k, x) in &t.n {
        let _ = writeln!(o, "STAT\t{}\t{}", k, x);
    }
    for s in t.samples.iter().take(12) {
        let _ = writeln!(o, "SAMPLE\t{}", s);
    }
    for (k, n) in c.known_hits.lock().unwrap().iter() {
        let _ = writeln!(o, "KNOWN\t{} (seen {}x)", k, n);
    }
    let v = c.viols.lock().unwrap();
    for x in v.iter() {
        let _ = writeln!(o, "VIOL\t{}", x);
    }
    let e = c.errors.lock().unwrap();
    for x in e.iter() {
        let _ = writeln!(o, "ERROR\t{}", x);
    }
    let _ = writeln!(o, "DONE");
    if !v.is_empty() {
        101
    } else if !e.is_empty() {
        102
    } else {
        0
    }
}
