//! Very long texts (past 2^24 characters, thorough past 2^32): positions and counts of every width must do.
//! The text is a short unit repeated by a source that holds only the unit, and the answer is judged while it is produced.
use crate::gen;
use crate::ops::{quick, quick_ss};
use crate::rng::Rng;
use crate::rt::{fail, hex, last_panic, parallel, tick, Ctx, Res, W};
use crate::ucd::{Cov, Form, Ucd, FORMS, Q};
use std::panic::{catch_unwind, AssertUnwindSafe};
use unicode_normalization::UnicodeNormalization;

/// `head`, then `n` characters of `unit` over and over, then `tail`
#[derive(Clone)]
struct Cyc<'a> {
    head: &'a [char],
    unit: &'a [char],
    i: usize,
    left: u64,
    tail: &'a [char],
    id: usize,
}
impl<'a> Cyc<'a> {
    fn new(id: usize, head: &'a [char], unit: &'a [char], n: u64, tail: &'a [char]) -> Self {
        Cyc { head, unit, i: 0, left: n, tail, id }
    }
}
impl Iterator for Cyc<'_> {
    type Item = char;
    #[inline]
    fn next(&mut self) -> Option<char> {
        if let Some((&c, r)) = self.head.split_first() {
            self.head = r;
            return Some(c);
        }
        if self.left > 0 {
            if self.left & 0x3FFFFF == 0 {
                tick(self.id)
            }
            self.left -= 1;
            let c = self.unit[self.i];
            self.i += 1;
            if self.i == self.unit.len() {
                self.i = 0
            }
            return Some(c);
        }
        let (&c, r) = self.tail.split_first()?;
        self.tail = r;
        Some(c)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.head.len() + self.left as usize + self.tail.len();
        (n, Some(n))
    }
}
struct Judge<E: Iterator<Item = char>> {
    want: E,
    at: u64,
    bad: Option<(u64, Option<char>, Option<char>)>,
}
impl<E: Iterator<Item = char>> Judge<E> {
    #[inline]
    fn see(&mut self, c: char) -> bool {
        let e = self.want.next();
        if e != Some(c) && self.bad.is_none() {
            self.bad = Some((self.at, e, Some(c)))
        }
        self.at += 1;
        self.bad.is_none()
    }
}
impl<E: Iterator<Item = char>> std::fmt::Write for Judge<E> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if !self.see(c) {
                return Err(std::fmt::Error);
            }
        }
        Ok(())
    }
}
fn judged<I: Iterator<Item = char>, E: Iterator<Item = char>>(what: &str, mode: usize, mut it: I, want: E) -> Res {
    let mut j = Judge { want, at: 0, bad: None };
    match mode {
        0 => {
            for c in it.by_ref() {
                if !j.see(c) {
                    break;
                }
            }
        }
        1 => {
            j = it.fold(j, |mut j, c| {
                j.see(c);
                j
            })
        }
        _ => {
            it.all(|c| j.see(c));
        }
    }
    done(what, j)
}
fn done<E: Iterator<Item = char>>(what: &str, mut j: Judge<E>) -> Res {
    if j.bad.is_none() {
        if let Some(e) = j.want.next() {
            j.bad = Some((j.at, Some(e), None))
        }
    }
    match j.bad {
        None => Ok(()),
        Some((p, e, g)) => fail(what, format!("{:X?}", e.map(|c| c as u32)), format!("{:X?}", g.map(|c| c as u32)), format!("at output position {}", p)),
    }
}

/// what f does to a unit, if f does the same to every repetition of it
fn per_unit(f: &dyn Fn(&[char]) -> Vec<char>, u: &[char]) -> Option<Vec<char>> {
    let one = f(u);
    for k in [2, 3, 7] {
        if f(&u.repeat(k)) != one.repeat(k) {
            return None;
        }
    }
    Some(one)
}
fn units(u: &Ucd, r: &mut Rng, f: &dyn Fn(&[char]) -> Vec<char>) -> Vec<(Vec<char>, Vec<char>)> {
    let mut v = vec![];
    for x in [vec!['a'], vec!['\u{4E2D}', '\u{61}', '\u{301}', '\u{316}'], vec!['\u{1112}', '\u{1161}', '\u{11AB}']] {
        if let Some(y) = per_unit(f, &x) {
            v.push((x, y))
        }
    }
    for _ in 0..400 {
        let mut x = vec![r.pick(&['z', '\u{4E00}', '\u{E9}', '\u{1F600}'])];
        if v.len() % 2 == 0 {
            x.extend(gen::pattern(u, r))
        } else {
            gen::streamy(u, r, &mut x)
        }
        if x.len() < 90 {
            if let Some(y) = per_unit(f, &x) {
                v.push((x, y));
            }
        }
        if v.len() >= 6 {
            break;
        }
    }
    v
}

fn iterators(id: usize, name: &str, x: &[char], y: &[char], n: u64, mode: usize) -> Res {
    let k = n / x.len() as u64;
    let src = Cyc::new(id, &[], x, k * x.len() as u64, &['b']);
    let want = Cyc::new(id, &[], y, k * y.len() as u64, &['b']);
    let what = format!("{} of [{}] repeated {} times", name, hex(x), k);
    macro_rules! go {
        ($it:expr) => {
            if mode == 3 {
                let mut j = Judge { want, at: 0, bad: None };
                use std::fmt::Write;
                let _ = write!(j, "{}", $it);
                done(&what, j)
            } else {
                judged(&what, mode, $it, want)
            }
        };
    }
    match name {
        "nfd" => go!(src.nfd()),
        "nfkd" => go!(src.nfkd()),
        "nfc" => go!(src.nfc()),
        "nfkc" => go!(src.nfkc()),
        "stream_safe" => judged(&what, mode % 3, src.stream_safe(), want),
        _ => go!(src.cjk_compat_variants()),
    }
}
fn model(u: &Ucd, name: &str, s: &[char]) -> Vec<char> {
    let mut c = Cov::default();
    match name {
        "stream_safe" => u.stream_safe(s, &mut c),
        "cjk" => u.cjk_variants(s),
        _ => u.nf_with(form(name), s, &mut c),
    }
}
fn form(name: &str) -> Form {
    FORMS.into_iter().find(|f| f.name().eq_ignore_ascii_case(name)).expect("harness: form")
}
fn quick_checks(w: &W, f: Form, r: &mut Rng, n: u64) -> Res {
    let u = w.u;
    let ss = matches!(f, Form::Nfc | Form::Nfd) && n >> 32 == 0 && r.below(2) == 0;
    // normalised text (the check goes through all of it), then an end that decides
    let us = units(u, r, &|s| model(u, f.name().to_ascii_lowercase().as_str(), s));
    let mut us: Vec<_> = us.into_iter().map(|(_, y)| y).filter(|y| u.quick(f, y) != Q::No && (!ss || u.max_nonstarters_nfkd(y) < 20)).collect();
    let y = if n >> 32 > 0 { "aaaaaaa\u{4E2D}".chars().collect() } else { us.swap_remove(r.below(us.len())) };
    let k = n / y.len() as u64;
    for tail in [&['b', '\u{315}', '\u{300}'][..], &['b'], &['\u{340}']].into_iter().take(if n >> 32 > 0 { 1 } else { 3 }) {
        let mut s = y.clone();
        s.extend(tail);
        let want = u.quick(f, &s);
        let src = Cyc::new(w.id, &[], &y, k * y.len() as u64, tail);
        let got = if ss { quick_ss(f == Form::Nfc, src) } else { quick(f, src) };
        if got != want {
            return fail(format!("is_{}{}_quick of [{}] repeated {} times, then [{}]", f.name().to_lowercase(), if ss { "_stream_safe" } else { "" }, hex(&y), k, hex(tail)), format!("{:?}", want), format!("{:?}", got), "");
        }
    }
    Ok(())
}
/// one run of n non-starters
fn big_run(w: &W, name: &str, r: &mut Rng, n: u64) -> Res {
    let u = w.u;
    let head = ['\u{4E2D}'];
    let m = r.range(2, 9);
    // (few classes, every class as likely)
    let by = &u.by_ccc;
    let ks: Vec<usize> = (0..r.range(1, 3)).map(|_| loop {
        let k = r.range(1, 255);
        if by[k].iter().any(|&c| u.nfkd1(c)[..] == [c]) {
            return k;
        }
    })
    .collect();
    let unit: Vec<char> = (0..m).map(|_| loop {
        let k = r.pick(&ks);
        let c = r.pick(&by[k]);
        if u.nfkd1(c)[..] == [c] {
            return c;
        }
    })
    .collect();
    let k = n / m as u64;
    let src = Cyc::new(w.id, &head, &unit, k * m as u64, &['b']);
    let what = format!("{} of one run: [{}] repeated {} times", name, hex(&unit), k);
    if name == "stream_safe" {
        let mut p = 0u64;
        let mut left = k * m as u64;
        let (mut i, unit) = (0, unit.clone());
        let mut st = 0;
        let want = std::iter::from_fn(move || {
            match st {
                0 => {
                    st = 1;
                    return Some('\u{4E2D}');
                }
                2 => {
                    st = 3;
                    return Some('b');
                }
                3 => return None,
                _ => {}
            }
            if left == 0 {
                st = 3;
                return Some('b');
            }
            if p == 30 {
                p = 0;
                return Some('\u{34F}');
            }
            p += 1;
            left -= 1;
            let c = unit[i];
            i = (i + 1) % unit.len();
            Some(c)
        });
        return judged(&what, r.below(3), src.stream_safe(), want);
    }
    // sorted by class, each class in the order of the unit
    let mut classes: Vec<u8> = unit.iter().map(|&c| u.cc(c)).collect();
    classes.sort();
    classes.dedup();
    let by: Vec<Vec<char>> = classes.iter().map(|&k| unit.iter().copied().filter(|&c| u.cc(c) == k).collect()).collect();
    let id = w.id;
    let body = by.into_iter().flat_map(move |v| {
        let t = v.len() as u64 * k;
        let mut i = 0;
        (0..t).map(move |j| {
            if j & 0xFFFFF == 0 {
                tick(id)
            }
            let c = v[i];
            i = (i + 1) % v.len();
            c
        })
    });
    let want = head.into_iter().chain(body).chain(['b']);
    let mode = r.below(3);
    match form(name) {
        Form::Nfd => judged(&what, mode, src.nfd(), want),
        Form::Nfkd => judged(&what, mode, src.nfkd(), want),
        Form::Nfc => judged(&what, mode, src.nfc(), want),
        Form::Nfkc => judged(&what, mode, src.nfkc(), want),
    }
}
/// the checks that take a string
fn strings(w: &W, f: Form, r: &mut Rng, n: usize) -> Res {
    let u = w.u;
    let name = f.name().to_ascii_lowercase();
    let mut us: Vec<Vec<char>> = units(u, r, &|s| model(u, &name, s)).into_iter().map(|(_, y)| y).filter(|y| y.iter().all(|&c| c as u32 != 0x34F) && u.max_nonstarters_nfkd(y) < 20).collect();
    let y: String = (if n >> 32 > 0 { "aaaaaaa\u{4E2D}".chars().collect() } else { us.swap_remove(r.below(us.len())) }).into_iter().collect();
    let k = n / y.len();
    let mut s = y.repeat(k);
    for (tail, good, good_ss) in [("b\u{315}\u{300}", false, false), ("b\u{323}\u{301}", true, true), ("b", true, true), ("", true, true)].into_iter().take(if n >> 32 > 0 { 1 } else { 4 }) {
        let l = s.len();
        s.push_str(tail);
        // a composite is no decomposed text and the other way round
        let truth = good && crate::ucd::Ucd::nf_with(u, f, &tail.chars().collect::<Vec<_>>(), &mut Cov::default()).iter().copied().eq(tail.chars());
        tick(w.id);
        let got = crate::ops::is(f, &s);
        if got != truth {
            return fail(format!("is_{} of [{}] repeated {} times, then [{}]", name, y, k, tail), truth.to_string(), got.to_string(), "");
        }
        if !f.compat() && n >> 32 == 0 {
            tick(w.id);
            let got = crate::ops::is_ss(f.composed(), &s);
            if got != (truth && good_ss) {
                return fail(format!("is_{}_stream_safe of [{}] repeated {} times, then [{}]", name, y, k, tail), truth.to_string(), got.to_string(), "");
            }
        }
        s.truncate(l);
    }
    Ok(())
}

/// something that matters, and where it is cut in two
fn straddler(u: &Ucd, r: &mut Rng) -> (Vec<char>, usize) {
    let e: Vec<char> = match r.below(7) {
        0 => vec!['e', '\u{301}'],
        1 => vec!['a', '\u{301}', '\u{316}'],
        2 => vec!['\u{1112}', '\u{1161}', '\u{11AB}'],
        3 => std::iter::once('x').chain(std::iter::repeat(r.pick(&['\u{316}', '\u{301}', '\u{345}'])).take(r.range(30, 36))).collect(),
        4 => u.nfd1(r.pick(&u.composites)).to_vec(),
        5 => vec![r.pick(&u.firsts), r.pick(&u.nonst), r.pick(&u.seconds)],
        _ => {
            let mut t = vec!['o'];
            gen::streamy(u, r, &mut t);
            t.truncate(50);
            t
        }
    };
    let j = if e.len() > 20 { e.len() / 2 } else { r.range(0, e.len()) };
    (e, j)
}
/// where whoever works in blocks would cut
fn cuts(r: &mut Rng, max: usize) -> Vec<usize> {
    let step = r.pick(&[4096usize, 1000]);
    let mut v: Vec<usize> = (1..).map(|i| i * step).take_while(|&p| p <= max / 4).collect();
    v.extend([1 << 19, 1 << 20, 1 << 21, 1 << 22, 1 << 23, 1 << 24, 1_000_000, 10_000_000].into_iter().filter(|&p| p <= max));
    v.sort();
    v.dedup();
    v
}
fn straddled(w: &W, name: &str, r: &mut Rng, n: usize) -> Res {
    let u = w.u;
    let bytes = r.below(2) == 0;
    let (mut x, mut y, mut at) = (Vec::with_capacity(n + 200), Vec::with_capacity(n + 200), 0usize);
    for p in cuts(r, n) {
        let (e, j) = straddler(u, r);
        let len = |s: &[char]| if bytes { s.iter().map(|c| c.len_utf8()).sum::<usize>() } else { s.len() };
        let Some(fill) = (p - len(&e[..j]).min(p)).checked_sub(at) else { continue };
        if fill == 0 {
            continue;
        }
        x.extend(std::iter::repeat('a').take(fill));
        y.extend(std::iter::repeat('a').take(fill));
        at += fill + len(&e);
        x.extend(&e);
        y.extend(model(u, name, &e));
    }
    x.push('b');
    y.push('b');
    tick(w.id);
    let what = format!("{} of 'a's with something at multiples of powers of 2 or 10 ({} positions)", name, if bytes { "byte" } else { "character" });
    let (mode, want) = (r.below(3), y.iter().copied());
    macro_rules! go {
        ($src:expr) => {
            match name {
                "nfd" => judged(&what, mode, $src.nfd(), want),
                "nfkd" => judged(&what, mode, $src.nfkd(), want),
                "nfc" => judged(&what, mode, $src.nfc(), want),
                "nfkc" => judged(&what, mode, $src.nfkc(), want),
                "stream_safe" => judged(&what, mode, $src.stream_safe(), want),
                _ => judged(&what, mode, $src.cjk_compat_variants(), want),
            }
        };
    }
    if bytes {
        let s: String = x.iter().collect();
        go!(s.chars())
    } else {
        go!(x.iter().copied())
    }
}
/// one thing in a long text, cut in two by a round position: the checks must see it whole
fn straddled_checks(w: &W, f: Form, r: &mut Rng, all: bool) -> Res {
    let u = w.u;
    let prop = w.c.prop.as_str();
    let mut s = String::new();
    let mut ps: Vec<usize> = (8..=24).map(|k| 1usize << k).chain([1000, 10_000, 100_000, 1_000_000, 10_000_000]).collect();
    if !all {
        // (the longest of each kind, and some)
        ps.retain(|p| *p < 1 << 19 || r.below(3) == 0)
    }
    for p in ps {
        for _ in 0..if p < 1 << 18 { 40 } else { 6 } {
            let (e, j) = straddler(u, r);
            let b = e[..j].iter().map(|c| c.len_utf8()).sum::<usize>();
            let fill = p - if r.below(4) > 0 { b } else { j };
            s.clear();
            s.extend(std::iter::repeat('a').take(fill));
            s.extend(&e);
            s.push_str(["b", "baaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"][r.below(2)]);
            let truth = u.nf_with(f, &e, &mut Cov::default()) == e;
            let safe = u.max_nonstarters_nfkd(&e) <= 30;
            let what = |op: &str| format!("{} of {} 'a's, then [{}], then 'b'", op, fill, hex(&e));
            let name = f.name().to_lowercase();
            tick(w.id);
            if prop == "C08" || prop == "C16" {
                let (got, want) = (quick(f, s.chars()), u.quick(f, &e));
                if got != want && (got == Q::Maybe || (got == Q::Yes) != truth) {
                    return fail(what(&format!("is_{}_quick", name)), format!("{:?}", want), format!("{:?}", got), "");
                }
            }
            if prop == "C09" || prop == "C16" {
                let got = crate::ops::is(f, &s);
                if got != truth {
                    return fail(what(&format!("is_{}", name)), truth.to_string(), got.to_string(), "");
                }
            }
            if (prop == "C11" || prop == "C16") && !f.compat() {
                let got = crate::ops::is_ss(f.composed(), &s);
                if got != (truth && safe) {
                    return fail(what(&format!("is_{}_stream_safe", name)), (truth && safe).to_string(), got.to_string(), "");
                }
            }
        }
    }
    Ok(())
}

fn one(w: &mut W, f: impl FnOnce(&W) -> Res) {
    w.st.evals += 1;
    tick(w.id);
    let r = catch_unwind(AssertUnwindSafe(|| f(w)));
    crate::rt::untick(w.id);
    let r = r.unwrap_or_else(|_| {
        let (loc, msg) = last_panic();
        if loc.starts_with("src/") && !msg.starts_with("monitor:") || msg.starts_with("harness:") {
            w.c.errors.lock().unwrap().push(format!("panic in the harness at {}: {}", loc, msg));
            return Ok(());
        }
        fail("panic on a very long text", "an answer", format!("panic at {}: {}", loc, msg), "")
    });
    if let Err(e) = r {
        w.report_long(&e)
    }
}
pub fn run(c: &Ctx, time_left: bool) {
    if c.scale < 0.9 || c.sanitized {
        return;
    }
    let n: u64 = (1 << 24) + 70_001;
    // (C16 runs in many builds, the others in one)
    let thorough = c.thorough && time_left && c.prop != "C16";
    // (text, iterators) (checks) per property
    let its: &[&'static str] = match c.prop.as_str() {
        "C01" => &["nfd", "nfkd"],
        "C02" => &["nfc", "nfkc"],
        "C07" => &["cjk"],
        "C10" => &["stream_safe"],
        "C16" => &["nfd", "nfkd", "nfc", "nfkc", "cjk", "stream_safe"],
        _ => &[],
    };
    let mut jobs: Vec<(u8, &'static str, usize, u64)> = vec![];
    // (C16 runs in slower builds, and only wants to see an answer)
    let some = if c.prop == "C16" { 1 } else { 4 };
    for &i in its {
        for k in 0..some + some / 2 {
            jobs.push((0, i, k, n))
        }
        if i != "cjk" {
            for k in 0..some {
                jobs.push((1, i, k, n))
            }
            for k in 0..if thorough { 40 } else { some } {
                jobs.push((4, i, k, (1 << 24) + 100))
            }
        }
        if thorough {
            jobs.push((0, i, if c.seed % 2 == 0 { 0 } else { 4 }, (1 << 32) + 70_001));
            if i == "stream_safe" {
                jobs.push((1, i, 0, (1 << 32) + 70_001));
            } else if i != "cjk" {
                jobs.push((1, i, 1, (1 << 26) + 70_001));
            }
        }
    }
    for f in FORMS {
        let name: &'static str = ["nfc", "nfd", "nfkc", "nfkd"].into_iter().find(|x| form(x) == f).unwrap();
        if ["C08", "C16"].contains(&c.prop.as_str()) {
            for k in 0..some {
                jobs.push((2, name, k, n))
            }
            if thorough {
                jobs.push((2, name, 0, (1 << 32) + 70_001))
            }
        }
        if c.prop == "C09" || c.prop == "C11" && !f.compat() {
            for k in 0..3 {
                jobs.push((3, name, k, n))
            }
            if thorough && c.prop == "C09" && (f as u64) % 2 == c.seed % 2 {
                jobs.push((3, name, 0, (1 << 32) + 70_001))
            }
        }
    }
    for f in FORMS {
        if ["C08", "C09", "C16"].contains(&c.prop.as_str()) || c.prop == "C11" && !f.compat() {
            let name: &'static str = ["nfc", "nfd", "nfkc", "nfkd"].into_iter().find(|x| form(x) == f).unwrap();
            for k in 0..if thorough { 16 } else { some } {
                jobs.push((5, name, k, 1 << 24))
            }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.3));
    let chars = std::sync::atomic::AtomicU64::new(0);
    parallel(c, "very long texts", jobs.len(), &|w, i| {
        let (kind, name, k, n) = jobs[i];
        let mut r = w.rng.clone();
        let u = w.u;
        one(w, |w| match kind {
            0 => {
                let mut us = units(u, &mut r, &|s| model(u, name, s));
                if n >> 32 > 0 {
                    let x: Vec<char> = "abcdefghijklmnopqrsto\u{302}\u{323}".chars().collect();
                    let y = per_unit(&|s| model(u, name, s), &x).expect("harness: unit");
                    us = vec![(x, y)]
                }
                let (x, y) = &us[k % us.len()];
                iterators(w.id, name, x, y, n, if k == 0 || n >> 32 > 0 { 0 } else { r.below(4) })
            }
            1 => big_run(w, name, &mut r, n),
            2 => quick_checks(w, form(name), &mut r, n),
            4 => straddled(w, name, &mut r, n as usize),
            5 => straddled_checks(w, form(name), &mut r, k == 0),
            _ => strings(w, form(name), &mut r, n as usize),
        });
        chars.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        w.st.add("very_long_texts", 1);
    });
    let mut t = c.total.lock().unwrap();
    t.add("very_long_text_chars_millions", chars.load(std::sync::atomic::Ordering::Relaxed) / 1_000_000);
}
