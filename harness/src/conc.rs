//! C16 (no panic, hang, invalid value on anything) and C17 (purity under concurrency and interleaving).
use crate::each_iter;
use crate::gen::{self, standard, Plan};
use crate::iter_checks::expected;
use crate::ops::*;
use crate::rng::{mix, Rng};
use crate::rt::{fail, hex, parallel, Ctx, Res, W};
use crate::ucd::{Cov, Form, Ucd, FORMS};
use std::sync::{Arc, Barrier, Mutex};
use unicode_normalization as un;
use unicode_normalization::char as uc;
use unicode_normalization::UnicodeNormalization;

// ---------------------------------------------------------------- C16
fn vhash(op: &str, c: char, h: &mut u64) -> Res {
    let x = unsafe { std::ptr::read_volatile(&c as *const char as *const u32) };
    *h = (*h ^ x as u64).wrapping_mul(0x100000001b3);
    if x > 0x10FFFF || (0xD800..0xE000).contains(&x) {
        return fail(format!("{}: invalid char", op), "Unicode scalar values", format!("{:X}", x), "");
    }
    Ok(())
}
/// the text followed by starters without end; hints as large as they come
#[derive(Clone)]
struct Vast<'a> {
    s: &'a [char],
    i: usize,
    bounded: bool,
}
impl Iterator for Vast<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.i += 1;
        Some(self.s.get(self.i - 1).copied().unwrap_or('x'))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (usize::MAX, if self.bounded { Some(usize::MAX) } else { None })
    }
}
/// a source that panics, ends early, goes on after its end and lies about its length (within reason)
struct Hostile<'a> {
    s: &'a [char],
    i: usize,
    r: std::cell::Cell<u64>,
    odds: u64,
}
impl Hostile<'_> {
    fn die(&self, sides: u64) -> bool {
        self.r.set(mix(self.r.get().wrapping_add(1)));
        self.r.get() % sides == 0
    }
}
impl Iterator for Hostile<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if self.die(self.odds) {
            std::panic::panic_any(crate::iter_checks::Injected)
        }
        if self.die(self.odds * 2) {
            return None;
        }
        self.i += 1;
        self.s.get(self.i - 1).copied()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let x = (mix(self.r.get()) % 300) as usize;
        match x % 3 {
            0 => (x, Some(x)),
            1 => (x / 7, None),
            _ => (x / 2, Some(x / 3)),
        }
    }
}
/// such a source must do no more harm than panic itself
fn c16_hostile(w: &mut W, s: &[char], h: &mut u64) -> Res {
    let n = s.len();
    let odds = w.rng.pick(&[3u64, 8, 40, 200]);
    let quit = w.rng.below(2 * n + 4);
    let seed = w.rng.next();
    let (mut dead, mut used) = (0u64, 0usize);
    each_iter!(Hostile { s, i: 0, r: std::cell::Cell::new(seed), odds }, name, it, {
        let mut it = it;
        // some are dropped in the middle
        for j in 0..3 * n + 9 {
            if j == quit && quit % 3 > 0 {
                break;
            }
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if j % 11 == 10 {
                    let _ = it.size_hint();
                    it.nth(2)
                } else {
                    it.next()
                }
            })) {
                Ok(Some(c)) => {
                    used += 1;
                    vhash(name, c, h)?
                }
                Ok(None) => {}
                Err(p) => {
                    if !p.is::<crate::iter_checks::Injected>() {
                        std::panic::resume_unwind(p)
                    }
                    crate::rt::last_panic();
                    dead += 1
                }
            }
        }
    });
    for k in 0..6usize {
        let src = Hostile { s, i: 0, r: std::cell::Cell::new(seed ^ k as u64), odds };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if k < 4 { quick(FORMS[k], src) } else { quick_ss(k == 4, src) }));
        match r {
            Ok(q) => *h ^= q as u64,
            Err(p) => {
                if !p.is::<crate::iter_checks::Injected>() {
                    std::panic::resume_unwind(p)
                }
                crate::rt::last_panic();
                dead += 1
            }
        }
    }
    w.st.add("hostile_source_panics", dead);
    w.st.add("hostile_source_characters", used as u64);
    Ok(())
}
/// every public operation on the text; nothing may panic, hang, or yield an invalid value
pub fn c16(w: &mut W, s: &[char]) -> Res {
    let n = s.len();
    let st = string(s);
    let mut h = 0u64;
    let lim = cap(n);
    each_iter!(s.iter().copied(), name, it, {
        let mut it = it;
        let mut k = 0usize;
        let mut r = Ok(());
        while let Some(c) = it.next() {
            r = r.and(vhash(name, c, &mut h));
            k += 1;
            if k > lim {
                panic!("monitor: {} yielded more than {} characters and goes on", name, lim)
            }
            if k % 7 == 0 {
                let _ = it.size_hint();
            }
        }
        let _ = it.next();
        let _ = it.size_hint();
        r?;
        w.st.add("characters_validated", k as u64);
    });
    each_iter!(st.chars(), name, it, {
        for c in it {
            vhash(name, c, &mut h)?
        }
    });
    for &f in &FORMS {
        h ^= quick(f, s.iter().copied()) as u64;
        h ^= is(f, &st) as u64;
    }
    for c in [false, true] {
        h ^= quick_ss(c, st.chars()) as u64 + is_ss(c, &st) as u64;
    }
    if n < 5000 {
        for f in [st.nfd().to_string(), st.nfkd().to_string(), st.nfc().to_string(), st.nfkc().to_string(), st.cjk_compat_variants().to_string()] {
            for c in f.chars() {
                vhash("Display", c, &mut h)?
            }
            if std::str::from_utf8(f.as_bytes()).is_err() {
                return fail("Display", "valid UTF-8", "invalid UTF-8", "");
            }
        }
        let mut it = st.nfc();
        for _ in 0..n / 2 {
            it.next();
        }
        let mut c = it.clone();
        c.nth(n / 3);
        for x in c {
            vhash("clone", x, &mut h)?
        }
    }
    if n < 200 {
        // sources with the largest hints there are: the text and then one starter after another, endlessly
        for k in 0..2 {
            each_iter!(Vast { s, i: 0, bounded: k == 1 }, name, it, {
                let mut it = it;
                let _ = it.size_hint();
                for j in 0..n + 3 {
                    match if j % 5 == 4 { it.nth(1) } else { it.next() } {
                        Some(c) => vhash(name, c, &mut h)?,
                        None => return fail(format!("{} over an endless source", name), "characters", "the end", ""),
                    }
                    let _ = it.size_hint();
                }
                if let Some(c) = it.by_ref().take(2).last() {
                    vhash(name, c, &mut h)?
                }
            });
        }
        for &f in &FORMS {
            h ^= quick(f, Vast { s, i: 0, bounded: true }.take(n + 9)) as u64
        }
        w.st.add("endless_sources", 12);
        // counts far beyond the end, at some state
        let at = w.rng.below(n + 2);
        let far = [usize::MAX, usize::MAX - 1 - n, isize::MAX as usize, u32::MAX as usize][w.rng.below(4)];
        each_iter!(st.chars(), name, it, {
            let mut it = it;
            for _ in 0..at {
                it.next();
            }
            if let Some(c) = it.nth(far) {
                return fail(format!("{}: nth({})", name, far), "None", format!("{:X}", c as u32), "");
            }
            let _ = (it.size_hint(), it.by_ref().skip(far).next(), it.by_ref().step_by(far).next());
        });
    }
    if n < 400 && w.rng.below(24) == 0 {
        c16_hostile(w, s, &mut h)?
    }
    let mut last = 'a';
    let mut r = Ok(());
    for &c in s.iter().take(3000) {
        let mut e = |op: &str, x: char| {
            if r.is_ok() {
                r = vhash(op, x, &mut h)
            }
        };
        uc::decompose_canonical(c, |x| e("decompose_canonical", x));
        uc::decompose_compatible(c, |x| e("decompose_compatible", x));
        uc::decompose_cjk_compat_variants(c, |x| e("decompose_cjk_compat_variants", x));
        if let Some(x) = uc::compose(last, c) {
            e("compose", x)
        }
        if let Some(x) = uc::compose(c, last) {
            e("compose", x)
        }
        h ^= uc::canonical_combining_class(c) as u64 + uc::is_combining_mark(c) as u64 + uc::is_public_assigned(c) as u64;
        last = c;
    }
    std::hint::black_box(h);
    r
}
fn run_c16(c: &Ctx) {
    let t = c.thorough;
    let p = gen::plan(c, if c.sanitized { 30.0 } else { 6.0 });
    standard(c, &Plan { contexts: 3, stride: if c.sanitized && !t { 7 } else { 1 }, alpha_budget: if t { 100_000 } else { 2000 }, ..p }, &c16);
    // pairs: every compose argument class, and all scalars as both arguments of compose with arithmetic neighbours
    let u = c.u;
    parallel(c, "compose on every scalar", 0x110, &|w, b| {
        for x in (b as u32 * 0x1000)..(b as u32 * 0x1000 + 0x1000) {
            if let Some(k) = char::from_u32(x) {
                let r = &mut w.rng;
                let a = r.pick(&u.hangul);
                let b = r.pick(&u.interesting);
                w.case(&[a, k, b, k, '\u{10FFFF}', k, '\0', k], &c16);
            }
        }
    });
    // extreme and random first arguments against every scalar: all index arithmetic of the pair lookup
    let firsts: Vec<char> = EXTREMES.iter().filter_map(|&x| char::from_u32(x)).collect();
    let blocks = 0x110usize;
    let nf = firsts.len() + if t { 200 } else { 24 };
    parallel(c, "compose: first argument x every scalar", nf * blocks, &|w, i| {
        let mut r = Rng::new(mix(w.c.seed ^ (i / blocks) as u64));
        let a = firsts.get(i / blocks).copied().unwrap_or_else(|| if r.chance(1, 2) { r.pick(&u.interesting) } else { gen::any_char(u, &mut r) });
        let b = (i % blocks) as u32 * 0x1000;
        let mut s = vec![a];
        for k in (b..b + 0x1000).step_by(64) {
            s.truncate(1);
            s.extend((k..k + 64).filter_map(char::from_u32));
            w.case(&s, &compose_all);
        }
    });
}
/// boundary values of the key arithmetic (key = first << 16 | second)
const EXTREMES: [u32; 34] = [
    0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xABFF, 0xAC00, 0xD7A3, 0xD7A4, 0xD7FF, 0xE000, 0xFEFF, 0xFF00, 0xFFF0, 0xFFFC, 0xFFFD, 0xFFFE,
    0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x20000, 0xE01EF, 0x10FFFE, 0x10FFFF,
];
pub fn compose_all(w: &mut W, s: &[char]) -> Res {
    let Some(&a) = s.first() else { return Ok(()) };
    let mut h = 0;
    for &x in &s[1..] {
        for r in [uc::compose(a, x), uc::compose(x, a)].into_iter().flatten() {
            vhash("compose", r, &mut h)?
        }
    }
    std::hint::black_box(h);
    w.st.add("compose_calls", 2 * (s.len() - 1) as u64);
    Ok(())
}

// ---------------------------------------------------------------- C17
const ALL: [&str; 6] = ["NFD", "NFKD", "NFC", "NFKC", "cjk_compat_variants", "stream_safe"];
enum It {
    D(un::Decompositions<std::vec::IntoIter<char>>),
    R(un::Recompositions<std::vec::IntoIter<char>>),
    P(un::Replacements<std::vec::IntoIter<char>>),
    S(un::StreamSafe<std::vec::IntoIter<char>>),
}
// Whether the iterators are Send and Sync is found out at run time (`send_sync`), before any is sent or shared; the harness
// must compile either way.
unsafe impl Send for It {}
unsafe impl Sync for It {}
impl It {
    fn new(op: usize, s: &[char]) -> It {
        let i = s.to_vec().into_iter();
        match op {
            0 => It::D(i.nfd()),
            1 => It::D(i.nfkd()),
            2 => It::R(i.nfc()),
            3 => It::R(i.nfkc()),
            4 => It::P(i.cjk_compat_variants()),
            _ => It::S(i.stream_safe()),
        }
    }
    fn next(&mut self) -> Option<char> {
        match self {
            It::D(i) => i.next(),
            It::R(i) => i.next(),
            It::P(i) => i.next(),
            It::S(i) => i.next(),
        }
    }
    fn read(&self) -> Option<String> {
        match self {
            It::D(i) => {
                let _ = i.size_hint();
                Some(if i.size_hint().0 % 2 == 0 { i.to_string() } else { i.clone().collect() })
            }
            It::R(i) => Some(if i.size_hint().0 % 2 == 0 { i.to_string() } else { i.clone().collect() }),
            It::P(i) => Some(if i.size_hint().0 % 2 == 0 { i.to_string() } else { i.clone().collect() }),
            It::S(i) => {
                let _ = i.size_hint();
                None
            }
        }
    }
}
struct Wrap<T>(T);
trait No {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T> No for &Wrap<T> {}
trait YesSend {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Send> YesSend for Wrap<T> {}
trait YesSync {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: Sync> YesSync for Wrap<T> {}

pub fn send_sync(_w: &mut W, _s: &[char]) -> Res {
    each_iter!("a".chars(), name, it, {
        let x = Wrap(it);
        let (a, b) = ((&x).send(), (&x).sync());
        if !a || !b {
            return fail(format!("{} over a sendable source", name), "Send and Sync", format!("Send: {}, Sync: {}", a, b), "");
        }
    });
    each_iter!(vec!['a'].into_iter(), name, it, {
        let x = Wrap(it);
        let (a, b) = ((&x).send(), (&x).sync());
        if !a || !b {
            return fail(format!("{} over a sendable source", name), "Send and Sync", format!("Send: {}, Sync: {}", a, b), "");
        }
    });
    Ok(())
}
/// several iterators advanced in turn on one thread, with other calls in between, against the model
pub fn c17_interleave(w: &mut W, s: &[char]) -> Res {
    let u = w.u;
    let mut r = w.rng.clone();
    let k = r.range(2, 6);
    let mut its = vec![];
    for i in 0..k {
        let t: Vec<char> = match (i, r.below(3)) {
            (0, _) => s.to_vec(),
            (_, 0) => s.iter().rev().copied().collect(),
            (_, 1) => s.to_vec(),
            _ => gen::text(u, &mut r, 30),
        };
        let op = r.below(6);
        let e = expected(u, ALL[op], &t, &mut w.st.cov);
        its.push((op, It::new(op, &t), e, vec![], false, t));
    }
    let mut steps = 0;
    while its.iter().any(|x| !x.4) {
        let i = r.below(k);
        let burst = r.range(1, 3);
        for _ in 0..burst {
            let x = &mut its[i];
            match x.1.next() {
                Some(c) => x.3.push(c),
                None => x.4 = true,
            }
            steps += 1;
            if x.3.len() > cap(x.5.len()) {
                return fail(format!("interleaved {}", ALL[x.0]), hex(&x.2), hex(&x.3), "does not end");
            }
        }
        // unrelated calls in between
        match r.below(8) {
            0 => {
                let c = gen::any_char(u, &mut r);
                uc::decompose_compatible(c, |_| {});
                let _ = uc::canonical_combining_class(c);
            }
            1 => {
                let _ = uc::compose(r.pick(&u.firsts), r.pick(&u.seconds));
            }
            2 => {
                let _ = un::is_nfc_quick(s.iter().copied());
            }
            3 => {
                let _ = its[i].1.read();
            }
            4 => {
                // an iterator started and abandoned
                let mut x = s.iter().copied().nfkc();
                x.next();
            }
            _ => {}
        }
    }
    w.st.add("interleaved_steps", steps);
    for x in &its {
        expect(|| format!("{} interleaved with {} other iterators, on [{}]", ALL[x.0], k - 1, hex(&x.5)), &x.2, &x.3)?;
    }
    // the same calls again, in another order, give the same answers
    let st = string(s);
    let f = FORMS[r.below(4)];
    let a = (nf(f, &st), quick(f, st.chars()), is(f, &st), is_ss(true, &st));
    for _ in 0..r.below(3) {
        let o = gen::text(u, &mut r, 20);
        let _ = nf(FORMS[r.below(4)], &string(&o));
    }
    let b = (nf(f, &st), quick(f, st.chars()), is(f, &st), is_ss(true, &st));
    if a != b {
        return fail(format!("the same calls repeated ({})", f.name()), format!("{} {:?} {} {}", hex(&a.0), a.1, a.2, a.3), format!("{} {:?} {} {}", hex(&b.0), b.1, b.2, b.3), "");
    }
    w.rng = r;
    Ok(())
}
/// the crate used from within the crate: by the source it reads, by the callback it calls, by the writer it writes to
struct Reentrant<'a> {
    s: &'a [char],
    i: usize,
    h: &'a std::cell::Cell<u64>,
}
fn use_inside(s: &[char], i: usize, h: &std::cell::Cell<u64>) {
    let c = s[i % s.len()];
    let b = s[(i * 7 + 3) % s.len()];
    let mut x = h.get();
    match i % 6 {
        0 => uc::decompose_compatible(c, |y| x ^= y as u64),
        1 => uc::decompose_canonical(b, |y| uc::decompose_compatible(y, |z| x ^= z as u64)),
        2 => x ^= [c, b].into_iter().nfkc().count() as u64,
        3 => x ^= s[..(i + 1).min(s.len())].iter().copied().nfc().next().map_or(0, |y| y as u64),
        4 => x ^= quick(FORMS[i % 4], [b, c].into_iter()) as u64 + uc::compose(c, b).map_or(0, |y| y as u64),
        _ => x ^= [c, b, c].into_iter().stream_safe().cjk_compat_variants().nfd().last().map_or(0, |y| y as u64),
    }
    h.set(x)
}
impl Iterator for Reentrant<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        use_inside(self.s, self.i, self.h);
        self.i += 1;
        self.s.get(self.i - 1).copied()
    }
}
struct ReentrantWriter<'a> {
    out: String,
    s: &'a [char],
    h: &'a std::cell::Cell<u64>,
}
impl std::fmt::Write for ReentrantWriter<'_> {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        use_inside(self.s, self.out.len(), self.h);
        self.out.push_str(t);
        Ok(())
    }
}
pub fn c17_reentrant(w: &mut W, s: &[char]) -> Res {
    use std::fmt::Write as _;
    if s.is_empty() {
        return Ok(());
    }
    let u = w.u;
    let h = std::cell::Cell::new(0);
    each_iter!(Reentrant { s, i: 0, h: &h }, name, it, {
        let e = expected(u, name, s, &mut w.st.cov);
        expect(|| format!("{} over a source that uses the crate itself", name), &e, &drain(it, cap(s.len())))?;
    });
    let st = string(s);
    macro_rules! wr {
        ($n:expr, $it:expr) => {{
            let e = expected(u, $n, s, &mut w.st.cov);
            let mut wr = ReentrantWriter { out: String::new(), s, h: &h };
            let _ = write!(wr, "{}", $it);
            expect(|| format!("{} displayed to a writer that uses the crate itself", $n), &e, &wr.out.chars().collect::<Vec<_>>())?;
        }};
    }
    wr!("NFD", st.nfd());
    wr!("NFKC", st.nfkc());
    wr!("NFC", st.nfc());
    wr!("NFKD", st.nfkd());
    wr!("cjk_compat_variants", st.cjk_compat_variants());
    for (i, &c) in s.iter().enumerate().take(30) {
        let mut v = vec![];
        uc::decompose_canonical(c, |x| {
            use_inside(s, i + v.len(), &h);
            v.push(x)
        });
        uc::decompose_compatible(c, |x| {
            use_inside(s, i + v.len(), &h);
            v.push(x)
        });
        uc::decompose_cjk_compat_variants(c, |x| {
            use_inside(s, i + v.len(), &h);
            v.push(x)
        });
        let mut e = u.nfd1(c).to_vec();
        e.extend(u.nfkd1(c).iter());
        e.extend(u.cjk_variants(&[c]));
        expect(|| format!("decompositions of U+{:04X} with callbacks that use the crate", c as u32), &e, &v)?;
    }
    let f = FORMS[w.rng.below(4)];
    let (a, b) = (quick(f, Reentrant { s, i: 0, h: &h }), quick(f, s.iter().copied()));
    if a != b {
        return fail(format!("quick check {} over a source that uses the crate itself", f.name()), format!("{:?}", b), format!("{:?}", a), "");
    }
    std::hint::black_box(h.get());
    w.st.add("reentrant_uses", 13);
    Ok(())
}
/// use while a thread is being torn down, after the thread's own storage may have gone
pub fn c17_teardown(c: &Ctx) {
    struct Last(&'static Ucd, Vec<char>, Arc<Mutex<Vec<(Vec<char>, String, Vec<char>, Vec<char>)>>>);
    impl Drop for Last {
        fn drop(&mut self) {
            let s = &self.1;
            let mut cov = Cov::default();
            each_iter!(s.iter().copied(), name, it, {
                let e = expected(self.0, name, s, &mut cov);
                let g = drain(it, cap(s.len()));
                if !same(&e, &g) {
                    self.2.lock().unwrap().push((s.clone(), name.to_string(), e, g))
                }
            });
            let st = string(s);
            for &f in &FORMS {
                let _ = (is(f, &st), quick(f, st.chars()));
            }
        }
    }
    thread_local!(static LAST: std::cell::RefCell<Option<Last>> = const { std::cell::RefCell::new(None) });
    let bad = Arc::new(Mutex::new(vec![]));
    let n = if c.scale >= 1.0 { 200 } else { 20 };
    for k in 0..n {
        let u = c.u;
        let b = bad.clone();
        let seed = mix(c.seed ^ 0x7EA2 ^ k);
        let _ = std::thread::spawn(move || {
            let mut r = Rng::new(seed);
            let s = gen::text(u, &mut r, 40);
            // registered before (in half the threads: after) the thread's first use of the crate
            let first = r.chance(1, 2);
            if first {
                LAST.with(|l| *l.borrow_mut() = Some(Last(u, s.clone(), b.clone())));
            }
            for &f in &FORMS {
                let st = string(&s);
                let _ = (nf(f, &st), is(f, &st), quick(f, st.chars()));
            }
            let st = string(&s);
            let _ = (ss(&st), cjk(&st), is_ss(true, &st), is_ss(false, &st), uc::compose('a', '\u{301}'), uc::is_combining_mark('a'));
            if !first {
                LAST.with(|l| *l.borrow_mut() = Some(Last(u, s, b)));
            }
        })
        .join();
    }
    {
        let mut t = c.total.lock().unwrap();
        t.evals += n;
        t.add("threads_torn_down", n);
    }
    let bad = std::mem::take(&mut *bad.lock().unwrap());
    parallel(c, "thread teardown", (!bad.is_empty()) as usize, &|w, _| {
        for (s, op, e, g) in &bad {
            if let Err(f) = fail(format!("{} while the thread is torn down", op), hex(e), hex(g), "") {
                w.report(s, &f, s)
            }
        }
    });
}
/// calls after other calls on look-alikes: characters equal in their low bits, or close, or the same pair swapped; strings of
/// the same length at the same address. What a call answers must not depend on the calls before.
pub fn c17_history(w: &mut W, s: &[char]) -> Res {
    let u = w.u;
    if s.is_empty() {
        return Ok(());
    }
    let mut r = Rng::new(s.iter().fold(0x17, |h, &c| mix(h ^ c as u64)));
    let from = r.below(s.len());
    let orig: Vec<char> = s[from..].iter().chain(&s[..from]).take(4).copied().collect();
    let alias = |r: &mut Rng, c: char| -> char {
        let x = c as u32;
        for _ in 0..20 {
            let y = match r.below(8) {
                0..=2 => {
                    let k = r.range(7, 20) as u32;
                    x & ((1 << k) - 1) | (r.below(0x110000) as u32) >> k << k
                }
                3 => x & 0xFFFF | (r.below(17) as u32) << 16,
                4 => x ^ 1 << r.below(21),
                5 => x.wrapping_add((r.below(9) as u32).wrapping_sub(4)),
                6 => x & !0xFF | r.below(256) as u32,
                _ => r.pick(&u.interesting) as u32,
            };
            if let Some(y) = char::from_u32(y) {
                return y;
            }
        }
        c
    };
    let mut pool = orig.clone();
    for &c in &orig {
        for _ in 0..3 {
            pool.push(alias(&mut r, c))
        }
    }
    let mut calls: Vec<String> = vec![];
    let log = |calls: &[String]| calls[calls.len().saturating_sub(4)..].join(", ");
    for i in 0..40 {
        let a = if i % 2 == 0 { r.pick(&orig) } else { r.pick(&pool) };
        match r.below(6) {
            0..=2 => {
                // a pair of the text, or one like it
                let j = r.below(orig.len());
                let (mut x, mut y) = (orig[j], orig[(j + 1) % orig.len()]);
                match r.below(6) {
                    0 | 1 => {}
                    2 => x = alias(&mut r, x),
                    3 => y = alias(&mut r, y),
                    4 => {
                        let k = (r.below(17) as u32) << 16;
                        x = char::from_u32(x as u32 & 0xFFFF | k).unwrap_or(x);
                        if r.chance(1, 2) {
                            y = char::from_u32(y as u32 & 0xFFFF | k).unwrap_or(y);
                        }
                    }
                    _ => std::mem::swap(&mut x, &mut y),
                }
                calls.push(format!("compose({:X},{:X})", x as u32, y as u32));
                let (e, g) = (u.compose_pair(x, y), uc::compose(x, y));
                if e.map(|c| c as u32) != g.map(|c| c as u32) {
                    return fail(format!("compose({:X},{:X}) after other calls", x as u32, y as u32), format!("{:X?}", e.map(|c| c as u32)), format!("{:X?}", g.map(|c| c as u32)), log(&calls));
                }
            }
            3 => {
                calls.push(format!("properties({:X})", a as u32));
                let k = a as usize;
                let e = (u.ccc[k], u.mark[k], u.public[k]);
                let g = (uc::canonical_combining_class(a), uc::is_combining_mark(a), uc::is_public_assigned(a));
                if e != g {
                    return fail(format!("class, mark, assigned of U+{:04X} after other calls", k), format!("{:?}", e), format!("{:?}", g), log(&calls));
                }
            }
            4 => {
                calls.push(format!("decompose({:X})", a as u32));
                let mut v = vec![];
                uc::decompose_canonical(a, |x| v.push(x));
                uc::decompose_compatible(a, |x| v.push(x));
                uc::decompose_cjk_compat_variants(a, |x| v.push(x));
                let mut e = u.nfd1(a).to_vec();
                e.extend(u.nfkd1(a).iter());
                e.extend(u.cjk_variants(&[a]));
                expect(|| format!("decompositions of U+{:04X} after other calls: {}", a as u32, log(&calls)), &e, &v)?;
            }
            _ => {
                // the properties behind the quick checks
                calls.push(format!("quick({:X})", a as u32));
                for &f in &FORMS {
                    let (e, g) = (u.quick(f, &[a]), quick(f, std::iter::once(a)));
                    if e != g {
                        // only a definite contradiction is this property's matter
                        let t = u.nf_with(f, &[a], &mut w.st.cov) == [a];
                        if (g == crate::ucd::Q::Yes && !t) || (g == crate::ucd::Q::No && t) {
                            return fail(format!("quick check {} of U+{:04X} after other calls", f.name(), a as u32), format!("{:?}", e), format!("{:?}", g), log(&calls));
                        }
                    }
                }
            }
        }
    }
    w.st.add("calls_after_look_alikes", 40);
    // strings at one address: same length in bytes, other content
    if s.len() <= 200 {
        let st = string(s);
        let mut buf = String::with_capacity(st.len() + 8);
        for round in 0..4 {
            let t: Vec<char> = if round % 2 == 0 {
                s.to_vec()
            } else {
                let mut t = s.to_vec();
                for _ in 0..r.range(1, 3) {
                    let i = r.below(t.len());
                    for _ in 0..30 {
                        let c = if r.chance(1, 2) { alias(&mut r, t[i]) } else { gen::any_char(u, &mut r) };
                        if c.len_utf8() == t[i].len_utf8() {
                            t[i] = c;
                            break;
                        }
                    }
                }
                t
            };
            buf.clear();
            buf.extend(&t);
            let f = FORMS[r.below(4)];
            let e = u.nf_with(f, &t, &mut w.st.cov);
            expect(|| format!("{} of a string after another one of the same length at the same address", f.name()), &e, &nf(f, &buf))?;
            let (q, i) = (quick(f, buf.chars()), is(f, &buf));
            if i != (e == t) || (q == crate::ucd::Q::Yes && e != t) || (q == crate::ucd::Q::No && e == t) {
                return fail(format!("checks of {} after another string of the same length at the same address", f.name()), format!("in form: {}", e == t), format!("quick: {:?}, is: {}", q, i), hex(&t));
            }
        }
        w.st.add("strings_reusing_a_buffer", 4);
    }
    Ok(())
}
/// one round: a pool of texts with reference results; threads transform them all concurrently, share iterators by
/// reference and hand half-consumed ones to each other
fn round(c: &Ctx, seed: u64, threads: usize, texts: usize, reps: usize) -> (u64, Vec<(Vec<char>, crate::rt::Fail)>) {
    let u: &'static Ucd = c.u;
    let mut r = Rng::new(seed);
    let mut cov = Cov::default();
    let pool: Arc<Vec<(Vec<char>, usize, Vec<char>)>> = Arc::new(
        (0..texts)
            .map(|i| {
                let t = gen::text(u, &mut r, 60);
                let op = i % 6;
                let e = expected(u, ALL[op], &t, &mut cov);
                (t, op, e)
            })
            .collect(),
    );
    let shared: Arc<Vec<(It, usize)>> = Arc::new(
        (0..texts)
            .map(|i| {
                let mut it = It::new(pool[i].1, &pool[i].0);
                let k = r.below(pool[i].2.len() + 1);
                for _ in 0..k {
                    it.next();
                }
                (it, k)
            })
            .collect(),
    );
    // a mailbox of half-consumed iterators
    let mail: Arc<Mutex<Vec<(usize, It, Vec<char>)>>> = Arc::new(Mutex::new(vec![]));
    let bad: Arc<Mutex<Vec<(Vec<char>, crate::rt::Fail)>>> = Arc::new(Mutex::new(vec![]));
    let bar = Arc::new(Barrier::new(threads));
    let ops = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (pool, shared, mail, bad, bar, ops) = (pool.clone(), shared.clone(), mail.clone(), bad.clone(), bar.clone(), ops.clone());
            std::thread::spawn(move || {
                let mut r = Rng::new(mix(seed ^ (t as u64) << 32));
                let put = |i: usize, what: &str, got: &[char], exp: &[char]| {
                    if !same(got, exp) {
                        let mut b = bad.lock().unwrap();
                        if b.len() < 20 {
                            if let Err(f) = fail(format!("{} ({})", ALL[pool[i].1], what), hex(exp), hex(got), "") {
                                b.push((pool[i].0.clone(), f))
                            }
                        }
                    }
                };
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    bar.wait();
                    for _ in 0..reps {
                        let i = r.below(pool.len());
                        let (s, op, e) = &pool[i];
                        ops.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        match r.below(6) {
                            0 | 1 => {
                                let mut it = It::new(*op, s);
                                let mut v = vec![];
                                while let Some(c) = it.next() {
                                    v.push(c);
                                    if v.len() > e.len() + 50 {
                                        break;
                                    }
                                }
                                put(i, "concurrently with other threads", &v, e)
                            }
                            2 => {
                                if let Some(x) = shared[i].0.read() {
                                    put(i, "read through a shared reference by several threads", &x.chars().collect::<Vec<_>>(), &e[shared[i].1..])
                                }
                            }
                            3 => {
                                let mut it = It::new(*op, s);
                                let k = r.below(e.len() + 1);
                                let v: Vec<char> = (0..k).filter_map(|_| it.next()).collect();
                                mail.lock().unwrap().push((i, it, v));
                            }
                            4 => {
                                let m = mail.lock().unwrap().pop();
                                if let Some((i, mut it, mut v)) = m {
                                    while let Some(c) = it.next() {
                                        v.push(c);
                                        if v.len() > pool[i].2.len() + 50 {
                                            break;
                                        }
                                    }
                                    put(i, "half consumed on one thread, finished on another", &v, &pool[i].2)
                                }
                            }
                            _ => {
                                let st = string(s);
                                for &f in &FORMS {
                                    let m = u.quick(f, s);
                                    let q = quick(f, st.chars());
                                    // (the exact answers are other properties' concern; here: the same on every thread)
                                    let q2 = quick(f, s.iter().copied());
                                    if q != q2 {
                                        put(i, &format!("quick check {} concurrently: {:?} then {:?} ({:?})", f.name(), q, q2, m), &['0'], &['1'])
                                    }
                                    let a = is(f, &st);
                                    if a != (u.nf_with(f, s, &mut Cov::default()) == *s) {
                                        put(i, &format!("is {} concurrently", f.name()), &['0'], &['1'])
                                    }
                                }
                                for &c in s.iter().take(20) {
                                    if uc::canonical_combining_class(c) != u.cc(c) || uc::is_public_assigned(c) != u.public[c as usize] || uc::is_combining_mark(c) != u.mark[c as usize] {
                                        put(i, &format!("lookup of U+{:04X} concurrently", c as u32), &['0'], &['1'])
                                    }
                                    let mut v = vec![];
                                    uc::decompose_canonical(c, |x| v.push(x));
                                    uc::decompose_compatible(c, |x| v.push(x));
                                    let mut e = u.nfd1(c).to_vec();
                                    e.extend(u.nfkd1(c).iter());
                                    put(i, "decompose of a character concurrently", &v, &e);
                                }
                                for p in s.windows(2).take(20) {
                                    if uc::compose(p[0], p[1]) != u.compose_pair(p[0], p[1]) {
                                        put(i, &format!("compose {:X} {:X} concurrently", p[0] as u32, p[1] as u32), &['0'], &['1'])
                                    }
                                }
                            }
                        }
                    }
                }));
                if res.is_err() {
                    let (loc, msg) = crate::rt::last_panic();
                    let mut b = bad.lock().unwrap();
                    if let Err(f) = fail("panic under concurrent use", "results", format!("{}: {}", loc, msg), "") {
                        b.push((vec![], f))
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let n = ops.load(std::sync::atomic::Ordering::Relaxed);
    let b = std::mem::take(&mut *bad.lock().unwrap());
    (n, b)
}
pub fn c17_rounds(c: &Ctx, rounds: usize, threads: usize, texts: usize, reps: usize) {
    for k in 0..rounds {
        if c.stop.load(std::sync::atomic::Ordering::SeqCst) {
            return;
        }
        let (n, bad) = round(c, mix(c.seed ^ mix(k as u64)), threads, texts, reps);
        {
            let mut t = c.total.lock().unwrap();
            t.evals += n;
            t.add("concurrent_operations", n);
            t.add("concurrent_rounds", 1);
        }
        if !bad.is_empty() {
            parallel(c, "concurrent", 1, &|w, _| {
                for (s, f) in &bad {
                    w.report(s, f, s)
                }
            });
        }
    }
}
fn run_c17(c: &Ctx) {
    let t = c.thorough;
    // `scale` < 1: under a race detector
    let big = c.scale >= 1.0;
    parallel(c, "sent and shared", 1, &|w, _| w.case(&['a'], &send_sync));
    if c.stop.load(std::sync::atomic::Ordering::SeqCst) || !c.viols.lock().unwrap().is_empty() {
        return;
    }
    // first: concurrent first use of everything in a fresh process
    c17_rounds(c, if big { if t { 4000 } else { 150 } } else { (60.0 * c.scale * if t { 10.0 } else { 1.0 }).ceil() as usize }, if big { 24 } else { 8 }, if big { 64 } else { 24 }, if big { 400 } else { 60 });
    c17_teardown(c);
    gen::random(c, "reentrant", if t { 1_500_000 } else { 60_000 }, 40, &c17_reentrant);
    let u = c.u;
    parallel(c, "history of look-alikes", 64, &|w, b| {
        let n = if !big { 1 } else if w.c.thorough { 60 } else { 6 };
        for _ in 0..n {
            for (i, &(x, y, z)) in u.pair_list.iter().enumerate().filter(|(i, _)| i % 64 == b) {
                if w.c.stop.load(std::sync::atomic::Ordering::Relaxed) {
                    return;
                }
                let _ = i;
                let k = gen::any_char(w.u, &mut w.rng);
                w.case(&[x, y, z, k], &c17_history);
                w.case(&[x, y], &c17_history);
            }
            for (_, &x) in u.interesting.iter().enumerate().filter(|(i, _)| i % 64 == b) {
                let k = gen::any_char(w.u, &mut w.rng);
                w.case(&[x, k], &c17_history);
            }
        }
    });
    gen::random(c, "history", if t { 3_000_000 } else { 200_000 }, 60, &c17_history);
    gen::random(c, "interleaved", if t { 6_000_000 } else { 200_000 }, 80, &c17_interleave);
    if big {
        gen::scalars_in_context(c, "interleaved every-scalar", 1, if t { 1 } else { 7 }, &c17_interleave);
        // the same text on all workers at once
        gen::lengths(c, "interleaved long", false, &|w: &mut W, s: &[char]| if s.len() < 3000 { c17_interleave(w, s) } else { Ok(()) });
    }
}

pub fn run(c: &Ctx) -> bool {
    match c.prop.as_str() {
        "C16" => run_c16(c),
        "C17" => run_c17(c),
        _ => return false,
    }
    true
}
pub fn form_ix(f: Form) -> usize {
    f as usize
}
