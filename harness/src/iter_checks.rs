//! C12..C15, C19: how the iterators behave while they are being used.
use crate::gen::{self, standard, Plan};
use crate::ops::*;
use crate::rng::Rng;
use crate::rt::{fail, heap_of, hex, Ctx, Res, W};
use crate::ucd::{Cov, Form, Ucd, FORMS};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Display, Write};
use std::rc::Rc;
use unicode_normalization as un;
use unicode_normalization::char as uc;
use unicode_normalization::UnicodeNormalization;

/// runs `$body` with `$it` bound to each of the crate's iterators over the source made by `$src`
#[macro_export]
macro_rules! each_iter {
    ($src:expr, $name:ident, $it:ident, $body:block) => {{
        {
            let $name = "NFD";
            let $it = $src.nfd();
            $body
        }
        {
            let $name = "NFKD";
            let $it = $src.nfkd();
            $body
        }
        {
            let $name = "NFC";
            let $it = $src.nfc();
            $body
        }
        {
            let $name = "NFKC";
            let $it = $src.nfkc();
            $body
        }
        {
            let $name = "cjk_compat_variants";
            let $it = $src.cjk_compat_variants();
            $body
        }
        {
            let $name = "stream_safe";
            let $it = $src.stream_safe();
            $body
        }
    }};
}
/// the same, only the iterator numbered `$k`
macro_rules! one_of {
    ($src:expr, $k:expr, $it:ident, $body:block) => {
        match $k {
            0 => {
                let $it = $src.nfd();
                $body
            }
            1 => {
                let $it = $src.nfkd();
                $body
            }
            2 => {
                let $it = $src.nfc();
                $body
            }
            3 => {
                let $it = $src.nfkc();
                $body
            }
            4 => {
                let $it = $src.cjk_compat_variants();
                $body
            }
            _ => {
                let $it = $src.stream_safe();
                $body
            }
        }
    };
}
pub fn expected(u: &Ucd, name: &str, s: &[char], c: &mut Cov) -> Vec<char> {
    match name {
        "stream_safe" => u.stream_safe(s, c),
        "cjk_compat_variants" => u.cjk_variants(s),
        _ => u.nf_with(FORMS.into_iter().find(|f| f.name() == name).unwrap(), s, c),
    }
}

// ---------------------------------------------------------------- C12
/// counts every poll, including the one that finds the end
struct Counted<'a> {
    s: &'a [char],
    i: usize,
    endless: bool,
    polls: &'a Cell<usize>,
}
impl Iterator for Counted<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.polls.set(self.polls.get() + 1);
        let c = if self.endless { self.s.get(self.i % self.s.len()) } else { self.s.get(self.i) };
        self.i += 1;
        c.copied()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.endless {
            (usize::MAX, None)
        } else {
            let n = self.s.len().saturating_sub(self.i);
            (n, Some(n))
        }
    }
}
/// for each output character: how many polls may have happened when it is emitted
fn bounds(u: &Ucd, name: &str, s: &[char]) -> Vec<usize> {
    let mut b = vec![];
    let mut c = Cov::default();
    match name {
        "stream_safe" => {
            let mut k = 0;
            let o = u.stream_safe(s, &mut c);
            for x in o {
                // an inserted joiner is decided by the character after it
                if k < s.len() && s[k] == x {
                    k += 1;
                    b.push(k)
                } else {
                    b.push(k + 1)
                }
            }
        }
        "cjk_compat_variants" => {
            for (i, x) in s.iter().enumerate() {
                b.push(i + 1);
                if u.variants.contains_key(&(*x as u32)) {
                    b.push(i + 1)
                }
            }
        }
        _ => {
            let f = FORMS.into_iter().find(|f| f.name() == name).unwrap();
            let mut i = 0;
            while i < s.len() {
                let mut j = i + 1;
                while j < s.len() && !u.boundary_before(f, s[j]) {
                    j += 1
                }
                for _ in 0..u.nf_with(f, &s[i..j], &mut c).len() {
                    b.push(j + 1)
                }
                i = j;
            }
        }
    }
    b
}
/// number of source characters after which the answer No is settled, if it ever is: the shortest prefix that no
/// continuation can repair
fn settled_no(u: &Ucd, f: Form, stream_safe: bool, s: &[char]) -> Option<usize> {
    let (mut last, mut run) = (0, 0usize);
    for (i, &c) in s.iter().enumerate() {
        let k = u.cc(c);
        if (last > k && k != 0) || u.qcv(f, c) == crate::ucd::Q::No {
            return Some(i + 1);
        }
        last = k;
        if stream_safe {
            let d = u.nfkd1(c);
            let init = d.iter().take_while(|&&x| u.cc(x) != 0).count();
            if run + init > 30 {
                return Some(i + 1);
            }
            run = if init == d.len() { run + init } else { d.iter().rev().take_while(|&&x| u.cc(x) != 0).count() };
        }
    }
    None
}
/// the quick checks stop reading once the answer is settled (one character of lookahead is tolerated)
fn c12_checks(w: &mut W, s: &[char]) -> Res {
    let u = w.u;
    for (k, name) in ["is_nfd_quick", "is_nfkd_quick", "is_nfc_quick", "is_nfkc_quick", "is_nfd_stream_safe_quick", "is_nfc_stream_safe_quick"].iter().enumerate() {
        let f = [Form::Nfd, Form::Nfkd, Form::Nfc, Form::Nfkc, Form::Nfd, Form::Nfc][k];
        let polls = Cell::new(0usize);
        let Some(n) = settled_no(u, f, k > 3, s) else { continue };
        // past the settled point the source goes on with the text again, some thousands of characters at most
        let src = Counted { s, i: 0, endless: true, polls: &polls }.take(4 * s.len() + 2000);
        let _ = if k < 4 { quick(f, src) } else { quick_ss(k == 5, src) };
        if polls.get() > n + 1 {
            return fail(format!("{}: characters read from an endless source", name), format!("at most {} (settled as No after {})", n + 1, n), polls.get().to_string(), "");
        }
        w.st.add("settled_quick_checks_observed", 1);
    }
    Ok(())
}
pub fn c12(w: &mut W, s: &[char]) -> Res {
    if s.is_empty() {
        return Ok(());
    }
    c12_checks(w, s)?;
    let u = w.u;
    for endless in [false, true] {
        // an endless source repeats the text for ever; the bounds follow from three repetitions
        let rep: Vec<char>;
        let long: &[char] = if endless {
            rep = s.iter().chain(s).chain(s).copied().collect();
            &rep
        } else {
            s
        };
        // text without any boundary never ends its segment: nothing is promised on an endless source
        let stepping = w.rng.below(3);
        let seed = w.rng.next();
        let mut r = Ok(());
        let mut observed = 0;
        let mut maxahead = 0;
        let polls = Cell::new(0usize);
        each_iter!(Counted { s, i: 0, endless, polls: { polls.set(0); &polls } }, name, it, {
            let mut it = it;
            if polls.get() != 0 && r.is_ok() {
                r = fail(format!("{}: creating the iterator", name), "no read from the source", format!("{} reads", polls.get()), "");
            }
            let mut b = bounds(u, name, long);
            if endless {
                // the segments touching the cut are not complete in `long`
                let f = FORMS.into_iter().find(|f| f.name() == name);
                let last = match f {
                    Some(f) => (0..long.len()).rev().find(|&i| i > 0 && u.boundary_before(f, long[i])).unwrap_or(0),
                    None => long.len(),
                };
                b.retain(|&x| x <= last.max(1));
            }
            let mut rng = Rng::new(seed);
            let mut k = 0;
            while k < b.len() + (!endless) as usize && r.is_ok() {
                let skip = if stepping == 2 { rng.below(3).min(b.len().saturating_sub(k + 1)) } else { 0 };
                if stepping == 1 {
                    let _ = it.size_hint();
                    if polls.get() > if k == 0 { 0 } else { b[k - 1] } {
                        r = fail(format!("{}: size_hint", name), "no read", "reads", "");
                        break;
                    }
                }
                let g = if skip == 0 { it.next() } else { it.nth(skip) };
                k += skip;
                observed += 1;
                match g {
                    Some(c) => {
                        if k < b.len() {
                            maxahead = maxahead.max(polls.get());
                            if polls.get() > b[k] {
                                r = fail(
                                    format!("{}: reads before emitting output character {} (U+{:04X}){}", name, k, c as u32, if endless { " from an endless source" } else { "" }),
                                    format!("at most {}", b[k]),
                                    polls.get().to_string(),
                                    "",
                                );
                            }
                        }
                    }
                    None => break,
                }
                k += 1;
            }
        });
        r?;
        w.st.add("emissions_observed", observed);
        w.st.add("source_reads_observed", maxahead as u64);
    }
    Ok(())
}

// ---------------------------------------------------------------- C13
pub fn c13_small(w: &mut W, s: &[char]) -> Res {
    // no allocation at all in the checks and per-character functions
    let st = string(s);
    let mut r: Res = Ok(());
    for &f in &FORMS {
        let (_, h) = heap_of(|| quick(f, st.chars()));
        if h.calls != 0 {
            r = fail(format!("quick check {}: heap allocations", f.name()), "0", h.calls.to_string(), "");
        }
    }
    for comp in [false, true] {
        let (_, h) = heap_of(|| quick_ss(comp, s.iter().copied()));
        if h.calls != 0 {
            r = fail(format!("quick stream-safe check ({}): heap allocations", comp), "0", h.calls.to_string(), "");
        }
    }
    let (_, h) = heap_of(|| {
        let mut n = 0u32;
        let mut last = 'a';
        for &c in s {
            uc::decompose_canonical(c, |x| n ^= x as u32);
            uc::decompose_compatible(c, |x| n ^= x as u32);
            uc::decompose_cjk_compat_variants(c, |x| n ^= x as u32);
            n ^= uc::compose(last, c).map_or(0, |c| c as u32);
            n ^= uc::canonical_combining_class(c) as u32 + uc::is_combining_mark(c) as u32 + uc::is_public_assigned(c) as u32;
            last = c;
        }
        std::hint::black_box(n)
    });
    if h.calls != 0 {
        r = fail("per-character functions: heap allocations", "0", h.calls.to_string(), "");
    }
    r?;
    // everything held is released on drop, at any point
    let n = s.len();
    let pts: Vec<usize> = if n <= 12 { (0..=n + 3).collect() } else { (0..4).map(|_| w.rng.below(2 * n + 2)).collect() };
    for k in pts {
        for which in 0..6 {
            // created, used and dropped within the measurement
            let (_, h) = heap_of(|| {
                one_of!(s.iter().copied(), which, it, {
                    let mut it = it;
                    for _ in 0..k {
                        if it.next().is_none() {
                            break;
                        }
                    }
                    drop(it)
                })
            });
            w.st.add("drop_points", 1);
            if h.live != 0 {
                return fail(format!("{}: heap still held after dropping the iterator when {} characters were taken", OPS[which], k), "0 bytes", format!("{} bytes", h.live), "");
            }
        }
    }
    for &f in &FORMS {
        let (_, h) = heap_of(|| is(f, &st));
        if h.live != 0 {
            return fail(format!("is {}: heap still held afterwards", f.name()), "0 bytes", format!("{} bytes", h.live), "");
        }
    }
    let (_, h) = heap_of(|| (is_ss(false, &st), is_ss(true, &st)));
    if h.live != 0 {
        return fail("stream-safe check: heap still held afterwards", "0 bytes", format!("{} bytes", h.live), "");
    }
    Ok(())
}
const BOUND: i64 = 16 << 10;
/// peak heap while consuming stream-safe text
pub fn c13_stream(w: &mut W, s: &[char]) -> Res {
    let t = w.u.stream_safe(s, &mut w.st.cov);
    let st = string(&t);
    let mut worst = 0;
    for which in 0..6 {
        let (n, h) = heap_of(|| {
            let mut n = 0u64;
            one_of!(st.chars(), which, it, {
                let mut it = it;
                while let Some(c) = it.next() {
                    n += c as u64
                }
            });
            n
        });
        std::hint::black_box(n);
        worst = worst.max(h.peak);
        w.st.add("streams_measured", 1);
        w.st.add("characters_streamed", t.len() as u64);
        if h.peak > BOUND {
            return fail(format!("{}: heap held while iterating stream-safe text of {} characters", OPS[which], t.len()), format!("at most {} bytes", BOUND), format!("{} bytes", h.peak), "");
        }
    }
    for &f in &FORMS {
        let (_, h) = heap_of(|| is(f, &st));
        worst = worst.max(h.peak);
        if h.peak > BOUND {
            return fail(format!("is {}: heap held for stream-safe text of {} characters", f.name(), t.len()), format!("at most {} bytes", BOUND), format!("{} bytes", h.peak), "");
        }
    }
    for comp in [false, true] {
        let (_, h) = heap_of(|| is_ss(comp, &st));
        worst = worst.max(h.peak);
        if h.peak > BOUND {
            return fail(format!("is stream-safe ({}): heap held for stream-safe text of {} characters", comp, t.len()), format!("at most {} bytes", BOUND), format!("{} bytes", h.peak), "");
        }
    }
    let k = format!("peak_bytes<= {}", (worst as u64).next_power_of_two());
    w.st.add(&k, 1);
    Ok(())
}

// ---------------------------------------------------------------- C14
#[derive(Clone)]
pub struct Hinted {
    v: Rc<Vec<char>>,
    i: usize,
    kind: u8,
}
impl Hinted {
    pub fn new(s: &[char], kind: u8) -> Hinted {
        Hinted { v: Rc::new(s.to_vec()), i: 0, kind }
    }
}
impl Iterator for Hinted {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.v.get(self.i).copied();
        if c.is_some() {
            self.i += 1
        }
        c
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len() - self.i;
        match self.kind {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, None),
            3 => (0, Some(n)),
            4 => (n, None),
            _ => (n, Some(n * 3 + 7)),
        }
    }
}
/// yields the text with pauses: None at the given positions, then goes on
#[derive(Clone)]
struct Pausing<'a> {
    s: &'a [char],
    i: usize,
    paused: bool,
    every: usize,
}
impl Iterator for Pausing<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if !self.paused && self.i > 0 && self.i % self.every == 0 {
            self.paused = true;
            return None;
        }
        self.paused = false;
        let c = self.s.get(self.i).copied();
        if c.is_some() {
            self.i += 1
        } else {
            // start over after the end
            self.i = 0;
        }
        c
    }
}
fn huge(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => usize::MAX,
        1 => usize::MAX - 1 - r.below(64),
        2 => isize::MAX as usize,
        3 => isize::MAX as usize - r.below(64),
        4 => (1 << 32) + r.below(64),
        _ => u32::MAX as usize - r.below(64),
    }
}
fn drained<I: Iterator<Item = char> + Clone>(i: &I, cap: usize) -> usize {
    drain(i.clone(), cap).len()
}
fn tail_check<I: Iterator<Item = char> + Clone>(name: &str, it: &I, rest: &[char], r: &mut Rng) -> Res {
    let c = || it.clone();
    let n = rest.len();
    match r.below(22) {
        0 => expect(|| format!("{}: collect", name), rest, &c().collect::<Vec<_>>()),
        1 => {
            let g = c().count();
            if g != n {
                return fail(format!("{}: count", name), n.to_string(), g.to_string(), "");
            }
            Ok(())
        }
        2 => {
            let g = c().last();
            if g != rest.last().copied() {
                return fail(format!("{}: last", name), format!("{:?}", rest.last()), format!("{:?}", g), "");
            }
            Ok(())
        }
        3 => {
            // nth, then go on
            let k = r.below(n + 3);
            let mut i = c();
            let g = i.nth(k);
            if g != rest.get(k).copied() {
                return fail(format!("{}: nth({})", name, k), format!("{:X?}", rest.get(k).map(|&c| c as u32)), format!("{:X?}", g.map(|c| c as u32)), "");
            }
            expect(|| format!("{}: what follows nth({})", name, k), &rest[(k + 1).min(n)..], &drain(i, cap(n)))
        }
        4 => expect(
            || format!("{}: fold", name),
            rest,
            &c().fold(vec![], |mut v, x| {
                v.push(x);
                v
            }),
        ),
        5 => {
            let mut v = vec![];
            c().for_each(|x| v.push(x));
            expect(|| format!("{}: for_each", name), rest, &v)
        }
        6 => {
            let k = r.below(n + 2);
            let mut i = c();
            let mut v: Vec<char> = i.by_ref().take(k).collect();
            expect(|| format!("{}: by_ref().take({})", name, k), &rest[..k.min(n)], &v)?;
            v.extend(i);
            expect(|| format!("{}: by_ref().take({}) and the rest", name, k), rest, &v)
        }
        7 => {
            let k = r.below(n + 2);
            expect(|| format!("{}: skip({})", name, k), &rest[k.min(n)..], &c().skip(k).collect::<Vec<_>>())
        }
        8 => {
            let k = 1 + r.below(4);
            let e: Vec<char> = rest.iter().copied().step_by(k).collect();
            expect(|| format!("{}: step_by({})", name, k), &e, &c().step_by(k).collect::<Vec<_>>())
        }
        9 => {
            if !c().eq(rest.iter().copied()) {
                return fail(format!("{}: eq", name), "true", "false", "");
            }
            Ok(())
        }
        10 => {
            // try_fold based, stopping early, then going on
            let mut i = c();
            let k = r.below(n + 1);
            let stop = rest.get(k).copied();
            let p = i.position(|x| Some(x) == stop);
            let e = stop.and_then(|s| rest.iter().position(|&x| x == s));
            if p != e {
                return fail(format!("{}: position", name), format!("{:?}", e), format!("{:?}", p), "");
            }
            let from = e.map_or(n, |x| x + 1);
            expect(|| format!("{}: what follows position", name), &rest[from..], &drain(i, cap(n)))
        }
        11 => {
            let (a, b) = (c().max(), c().min());
            if a != rest.iter().copied().max() || b != rest.iter().copied().min() {
                return fail(format!("{}: max/min", name), "of the rest", format!("{:?} {:?}", a, b), "");
            }
            Ok(())
        }
        12 => {
            let mut i = c().peekable();
            let mut v = vec![];
            while i.peek().is_some() {
                v.extend(i.next())
            }
            expect(|| format!("{}: peekable", name), rest, &v)
        }
        13 => {
            // alternate original-like use of two clones
            let (mut a, mut b) = (c(), c());
            let mut v = vec![];
            let mut x = vec![];
            loop {
                let (p, q) = (a.next(), b.next());
                v.extend(p);
                x.extend(q);
                if p.is_none() && q.is_none() || v.len() > cap(n) {
                    break;
                }
            }
            expect(|| format!("{}: two clones stepped in turn (first)", name), rest, &v)?;
            expect(|| format!("{}: two clones stepped in turn (second)", name), rest, &x)
        }
        14 => {
            let s: String = c().collect();
            expect(|| format!("{}: collect to String", name), rest, &s.chars().collect::<Vec<_>>())
        }
        15 => {
            // counts far beyond the end
            let k = huge(r);
            let mut i = c();
            for _ in 0..r.below(3).min(n) {
                i.next();
            }
            let g = match r.below(3) {
                0 => i.nth(k),
                1 => i.by_ref().skip(k).next(),
                _ => i.by_ref().step_by(k).nth(1),
            };
            if g.is_some() || i.next().is_some() {
                return fail(format!("{}: nth/skip/step_by with {}", name, k), "None, then None", format!("{:?}", g), "");
            }
            let t: Vec<char> = c().take(k).collect();
            expect(|| format!("{}: take({})", name, k), rest, &t)
        }
        16 => {
            // assigned over another iterator in some other state
            let mut x = c();
            for _ in 0..r.below(4) {
                x.next();
            }
            let mut y = c();
            for _ in 0..r.below(n + 2) {
                y.next();
            }
            let left = rest.len().saturating_sub(drained(&y, cap(n)));
            x.clone_from(&y);
            expect(|| format!("{}: clone_from", name), &rest[left..], &drain(x, cap(n)))?;
            expect(|| format!("{}: what clone_from copied", name), &rest[left..], &drain(y, cap(n)))
        }
        17 => {
            // stopped early by each of the short-circuiting methods in turn, then the rest
            let mut i = c();
            let mut v = vec![];
            let mut m = r.below(5);
            while v.len() < n {
                let k = r.below(4);
                let mut j = 0;
                let mut see = |x: char| {
                    v.push(x);
                    j += 1;
                    j > k
                };
                match m % 5 {
                    0 => {
                        let _ = i.try_for_each(|x| if see(x) { Err(()) } else { Ok(()) });
                    }
                    1 => {
                        i.find(|&x| see(x));
                    }
                    2 => {
                        i.any(|x| see(x));
                    }
                    3 => {
                        i.all(|x| !see(x));
                    }
                    _ => {
                        i.find_map(|x| if see(x) { Some(()) } else { None });
                    }
                }
                m += 1;
                if m > 3 * n + 20 {
                    break;
                }
            }
            v.extend(i);
            expect(|| format!("{}: try_for_each, find, any, all, find_map in turn", name), rest, &v)
        }
        18 => {
            let k = r.below(n + 1);
            let mut other: Vec<char> = rest.to_vec();
            if k < n && r.chance(1, 2) {
                other[k] = ['a', '\u{10FFFF}', '\0'][r.below(3)];
            }
            if r.chance(1, 2) {
                other.truncate(k)
            }
            let e = rest.iter().copied().cmp(other.iter().copied());
            let g = c().cmp(other.iter().copied());
            let ne = c().ne(other.iter().copied());
            if e != g || ne != (rest != &other[..]) || c().lt(other.iter().copied()) != (e == std::cmp::Ordering::Less) {
                return fail(format!("{}: cmp/ne/lt", name), format!("{:?}", e), format!("{:?} {}", g, ne), "");
            }
            Ok(())
        }
        19 => {
            let v: Vec<char> = c().zip(c().chain(c())).map(|(a, b)| if a == b { a } else { '\0' }).collect();
            expect(|| format!("{}: zip of two clones", name), rest, &v)?;
            let v: Vec<char> = c().chain(c()).collect();
            let e: Vec<char> = rest.iter().chain(rest).copied().collect();
            expect(|| format!("{}: chain of two clones", name), &e, &v)
        }
        20 => {
            // an exhausted iterator, consumed again in every way
            let mut i = c();
            for _ in i.by_ref() {}
            if i.nth(0).is_some() || i.nth(5).is_some() || i.clone().count() != 0 || i.clone().last().is_some() || i.by_ref().fold(0, |a, _| a + 1) != 0 || i.next().is_some() {
                return fail(format!("{}: consumed again after the end", name), "nothing", "something", "");
            }
            Ok(())
        }
        _ => {
            let k = r.below(n + 1);
            let (a, b): (Vec<(usize, char)>, Vec<(usize, char)>) = c().enumerate().partition(|x| x.0 < k);
            let v: Vec<char> = a.iter().chain(&b).map(|x| x.1).collect();
            expect(|| format!("{}: enumerate, partition", name), rest, &v)
        }
    }
}
fn hint_ok(name: &str, h: (usize, Option<usize>), rem: usize) -> Res {
    if h.0 > rem || h.1.is_some_and(|x| x < rem) {
        return fail(format!("{}: size_hint", name), format!("brackets {}", rem), format!("{:?}", h), "");
    }
    Ok(())
}
fn c14_clonable<I: Iterator<Item = char> + Clone + Display>(w: &mut W, name: &str, it: I) -> Res {
    let full = drain(it.clone(), 1 << 24);
    let mut it = it;
    let n = full.len();
    let dense = n <= 24;
    for k in 0..=n {
        hint_ok(name, it.size_hint(), n - k)?;
        if dense || w.rng.chance(24, n) {
            let rest = &full[k..];
            w.st.add("states_cloned_and_displayed", 1);
            expect(|| format!("{}: clone after {} characters", name, k), rest, &drain(it.clone(), cap(n)))?;
            let d = match w.rng.below(6) {
                0..=2 => it.to_string(),
                3 => format!("{}", &it),
                // the format's parameters do not change the characters
                4 => format!("{:.1}", it),
                _ => format!("{:#}", it),
            };
            expect(|| format!("{}: Display after {} characters", name, k), rest, &d.chars().collect::<Vec<_>>())?;
            let mut r = w.rng.clone();
            for _ in 0..2 {
                tail_check(name, &it, rest, &mut r)?
            }
            // a clone that is dropped half-way leaves the original alone
            let mut c = it.clone();
            for _ in 0..r.below(3) {
                c.next();
            }
            drop(c);
            w.rng = r;
        }
        let g = it.next();
        if g != full.get(k).copied() {
            return fail(format!("{}: the original after clones, at character {}", name, k), format!("{:X?}", full.get(k).map(|&c| c as u32)), format!("{:X?}", g.map(|c| c as u32)), "");
        }
    }
    for _ in 0..3 {
        if let Some(c) = it.next() {
            return fail(format!("{}: next after None", name), "None", format!("{:X}", c as u32), "");
        }
        hint_ok(name, it.size_hint(), 0)?;
    }
    expect(|| format!("{}: clone after the end", name), &[], &drain(it.clone(), cap(n)))?;
    expect(|| format!("{}: Display after the end", name), &[], &it.to_string().chars().collect::<Vec<_>>())
}
struct Wrap<T>(T);
trait NotFused {
    fn fused(&self) -> bool {
        false
    }
}
impl<T> NotFused for &Wrap<T> {}
trait YesFused {
    fn fused(&self) -> bool {
        true
    }
}
impl<T: std::iter::FusedIterator> YesFused for Wrap<T> {}
/// implementations the crate does not have now; what they promise if it gets them
trait NoLen {
    fn promised(&self) -> Option<usize> {
        None
    }
}
impl<T> NoLen for &Wrap<T> {}
trait HasLen {
    fn promised(&self) -> Option<usize>;
}
impl<T: ExactSizeIterator> HasLen for Wrap<T> {
    fn promised(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
trait NoBack {
    fn backwards(&mut self, _: usize) -> Option<Vec<char>>;
}
impl<T> NoBack for &mut Wrap<T> {
    fn backwards(&mut self, _: usize) -> Option<Vec<char>> {
        None
    }
}
trait HasBack {
    fn backwards(&mut self, front: usize) -> Option<Vec<char>>;
}
impl<T: DoubleEndedIterator<Item = char>> HasBack for Wrap<T> {
    fn backwards(&mut self, front: usize) -> Option<Vec<char>> {
        let mut a = vec![];
        for _ in 0..front {
            a.extend(self.0.next())
        }
        let mut b = vec![];
        while let Some(c) = self.0.next_back() {
            b.push(c);
            if b.len() > 1 << 24 {
                break;
            }
        }
        b.reverse();
        a.extend(b);
        Some(a)
    }
}
fn c14_promises(w: &mut W, s: &[char]) -> Res {
    let full = all_results(|| s.iter().copied(), s.len()).0;
    let mut r: Res = Ok(());
    let k = w.rng.below(s.len() + 2);
    let mut i = 0;
    each_iter!(s.iter().copied(), name, it, {
        let mut x = Wrap(it);
        for _ in 0..k {
            x.0.next();
        }
        let rest = &full[i][k.min(full[i].len())..];
        i += 1;
        if let Some(n) = (&x).promised() {
            if n != rest.len() && r.is_ok() {
                r = fail(format!("{}: len", name), rest.len().to_string(), n.to_string(), "");
            }
        }
        let f = w.rng.below(rest.len() + 1);
        if let Some(v) = (&mut x).backwards(f) {
            if r.is_ok() {
                r = expect(|| format!("{}: {} from the front, the others from the back", name, f), rest, &v);
            }
        }
    });
    r?;
    let mut r: Res = Ok(());
    // FusedIterator claimed over a source that resumes
    if !s.is_empty() {
        let every = 1 + w.rng.below(s.len());
        each_iter!(Pausing { s, i: 0, paused: false, every }, name, it, {
            let mut x = Wrap(it);
            if (&x).fused() {
                let mut n = 0;
                while x.0.next().is_some() && n < cap(s.len()) {
                    n += 1
                }
                if x.0.next().is_some() && r.is_ok() {
                    r = fail(format!("{}: implements FusedIterator for every source", name), "None after None", "a character", "");
                }
            }
        });
    }
    r
}
pub fn c14_static() -> Res {
    // trait bounds a user may rely on; decided at run time so that losing one is reported as this property's violation
    each_iter!("a".chars(), name, it, {
        let x = Wrap(it);
        let b = (&x).fused();
        if !b {
            return fail(format!("{} over a fused source", name), "implements FusedIterator", "does not", "");
        }
    });
    Ok(())
}
pub fn c14(w: &mut W, s: &[char]) -> Res {
    c14_static()?;
    if s.len() <= 64 {
        c14_promises(w, s)?;
    }
    let kind = w.rng.below(6) as u8;
    let h = Hinted::new(s, kind);
    let st = string(s);
    match w.rng.below(2) {
        0 => {
            for &f in &FORMS {
                match f {
                    Form::Nfd => c14_clonable(w, "NFD", h.clone().nfd())?,
                    Form::Nfkd => c14_clonable(w, "NFKD", h.clone().nfkd())?,
                    Form::Nfc => c14_clonable(w, "NFC", h.clone().nfc())?,
                    Form::Nfkc => c14_clonable(w, "NFKC", h.clone().nfkc())?,
                }
            }
            c14_clonable(w, "cjk_compat_variants", h.clone().cjk_compat_variants())?;
        }
        _ => {
            for &f in &FORMS {
                match f {
                    Form::Nfd => c14_clonable(w, "NFD", st.nfd())?,
                    Form::Nfkd => c14_clonable(w, "NFKD", st.nfkd())?,
                    Form::Nfc => c14_clonable(w, "NFC", st.nfc())?,
                    Form::Nfkc => c14_clonable(w, "NFKC", st.nfkc())?,
                }
            }
            c14_clonable(w, "cjk_compat_variants", st.cjk_compat_variants())?;
        }
    }
    // StreamSafe cannot be cloned: re-created for every state instead
    let full = drain(h.clone().stream_safe(), cap(s.len()));
    let n = full.len();
    let mut it = h.clone().stream_safe();
    for k in 0..=n {
        hint_ok("stream_safe", it.size_hint(), n - k)?;
        if n <= 24 || w.rng.chance(8, n) {
            let mk = || {
                let mut x = h.clone().stream_safe();
                for _ in 0..k {
                    x.next();
                }
                x
            };
            let rest = &full[k..];
            let name = "stream_safe";
            let mut r = w.rng.clone();
            let j = r.below(rest.len() + 2);
            let (nth, after) = {
                let mut x = mk();
                (x.nth(j), drain(x, cap(n)))
            };
            if nth != rest.get(j).copied() {
                return fail(format!("{}: nth({})", name, j), format!("{:?}", rest.get(j)), format!("{:?}", nth), "");
            }
            expect(|| format!("{}: what follows nth({})", name, j), &rest[(j + 1).min(rest.len())..], &after)?;
            expect(|| format!("{}: collect after {}", name, k), rest, &mk().collect::<Vec<_>>())?;
            let mut v = vec![];
            mk().for_each(|c| v.push(c));
            expect(|| format!("{}: for_each after {}", name, k), rest, &v)?;
            if mk().count() != rest.len() || mk().last() != rest.last().copied() {
                return fail(format!("{}: count/last after {}", name, k), rest.len().to_string(), format!("{} {:?}", mk().count(), mk().last()), "");
            }
            let mut x = mk();
            let mut v: Vec<char> = x.by_ref().take(j).collect();
            v.extend(x);
            expect(|| format!("{}: by_ref().take({}) and the rest", name, j), rest, &v)?;
            let h = huge(&mut r);
            let mut x = mk();
            if x.nth(h).is_some() || x.next().is_some() {
                return fail(format!("{}: nth({})", name, h), "None, then None", "a character", "");
            }
            expect(|| format!("{}: take({})", name, h), rest, &mk().take(h).collect::<Vec<_>>())?;
            let mut x = mk();
            let mut v = vec![];
            let mut turn = r.below(3);
            while v.len() < rest.len() && turn < 3 * n + 20 {
                let stop = r.below(4);
                let mut j = 0;
                let mut see = |c: char| {
                    v.push(c);
                    j += 1;
                    j > stop
                };
                match turn % 3 {
                    0 => {
                        let _ = x.try_for_each(|c| if see(c) { Err(()) } else { Ok(()) });
                    }
                    1 => {
                        x.any(|c| see(c));
                    }
                    _ => {
                        x.find(|&c| see(c));
                    }
                }
                turn += 1;
            }
            v.extend(x);
            expect(|| format!("{}: try_for_each, any, find in turn", name), rest, &v)?;
            w.rng = r;
        }
        let g = it.next();
        if g != full.get(k).copied() {
            return fail("stream_safe: repeated iteration", format!("{:?}", full.get(k)), format!("{:?}", g), "");
        }
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return fail("stream_safe: next after None over a fused source", "None", "a character", "");
        }
    }
    // a source that resumes: the normal forms stay ended
    if !s.is_empty() {
        let every = 1 + w.rng.below(s.len());
        let p = Pausing { s, i: 0, paused: false, every };
        let mut r = Ok(());
        let mut chk = |name: &str, it: &mut dyn Iterator<Item = char>| {
            let first = drain(&mut *it, cap(s.len()));
            for _ in 0..5 {
                if let Some(c) = it.next() {
                    if r.is_ok() {
                        r = fail(format!("{}: next after None over a source that resumes", name), "None", format!("{:X}", c as u32), "");
                    }
                }
            }
            first
        };
        let pre = &s[..every];
        let e: Vec<Vec<char>> = FORMS.iter().map(|&f| nf(f, &string(pre))).collect();
        let g = [chk("NFD", &mut p.clone().nfd()), chk("NFKD", &mut p.clone().nfkd()), chk("NFC", &mut p.clone().nfc()), chk("NFKC", &mut p.clone().nfkc())];
        r?;
        w.st.add("resuming_sources", 4);
        for i in 0..4 {
            expect(|| format!("{}: over a source that pauses", FORMS[i].name()), &e[i], &g[i])?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15
struct Overshy<I>(I);
impl<I: Iterator<Item = char>> Iterator for Overshy<I> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.0.next()
    }
}
fn all_results<I: Iterator<Item = char>, F: Fn() -> I>(mk: F, n: usize) -> ([Vec<char>; 6], [crate::ucd::Q; 6]) {
    let c = cap(n);
    (
        [drain(mk().nfd(), c), drain(mk().nfkd(), c), drain(mk().nfc(), c), drain(mk().nfkc(), c), drain(mk().cjk_compat_variants(), c), drain(mk().stream_safe(), c)],
        [quick(Form::Nfd, mk()), quick(Form::Nfkd, mk()), quick(Form::Nfc, mk()), quick(Form::Nfkc, mk()), quick_ss(false, mk()), quick_ss(true, mk())],
    )
}
const OPS: [&str; 6] = ["NFD", "NFKD", "NFC", "NFKC", "cjk_compat_variants", "stream_safe"];
pub fn c15(w: &mut W, s: &[char]) -> Res {
    let n = s.len();
    let st = string(s);
    let base = all_results(|| s.iter().copied(), n);
    let mut r: Res = Ok(());
    let mut seen = 0;
    {
        let mut cmp = |kind: &str, g: ([Vec<char>; 6], [crate::ucd::Q; 6])| {
            seen += 1;
            if r.is_err() {
                return;
            }
            for i in 0..6 {
                if !same(&base.0[i], &g.0[i]) {
                    r = fail(format!("{} over {}", OPS[i], kind), hex(&base.0[i]), hex(&g.0[i]), "");
                    return;
                }
                if base.1[i] != g.1[i] {
                    r = fail(format!("quick check {} over {}", i, kind), format!("{:?}", base.1[i]), format!("{:?}", g.1[i]), "");
                    return;
                }
            }
        };
        let c = cap(n);
        // the inherent entry points on str (and through String, &&str)
        let q = |i: std::str::Chars| [quick(Form::Nfd, i.clone()), quick(Form::Nfkd, i.clone()), quick(Form::Nfc, i.clone()), quick(Form::Nfkc, i.clone()), quick_ss(false, i.clone()), quick_ss(true, i)];
        let sref: &str = &st;
        cmp(
            "&str",
            (
                [drain(sref.nfd(), c), drain(sref.nfkd(), c), drain(sref.nfc(), c), drain(sref.nfkc(), c), drain(sref.cjk_compat_variants(), c), drain(sref.stream_safe(), c)],
                q(sref.chars()),
            ),
        );
        // a slice of a longer string, at any alignment
        let k = 1 + w.rng.below(16);
        let mut longer = "x".repeat(k);
        longer.push_str(&st);
        longer.push_str("\u{301}e");
        let part = &longer[k..k + st.len()];
        cmp(
            "a slice within a longer string",
            (
                [drain(part.nfd(), c), drain(part.nfkd(), c), drain(part.nfc(), c), drain(part.nfkc(), c), drain(part.cjk_compat_variants(), c), drain(part.stream_safe(), c)],
                q(part.chars()),
            ),
        );
        cmp(
            "named constructors",
            (
                [
                    drain(un::Decompositions::new_canonical(st.chars()), c),
                    drain(un::Decompositions::new_compatible(st.chars()), c),
                    drain(un::Recompositions::new_canonical(st.chars()), c),
                    drain(un::Recompositions::new_compatible(st.chars()), c),
                    drain(un::Replacements::new_cjk_compat_variants(st.chars()), c),
                    drain(un::StreamSafe::new(st.chars()), c),
                ],
                base.1,
            ),
        );
        if n == 1 {
            let k = s[0];
            cmp(
                "char",
                (
                    [drain(k.nfd(), c), drain(k.nfkd(), c), drain(k.nfc(), c), drain(k.nfkc(), c), drain(k.cjk_compat_variants(), c), drain(k.stream_safe(), c)],
                    base.1,
                ),
            );
            cmp("Option::into_iter", all_results(|| Some(k).into_iter(), n));
            cmp("iter::once", all_results(|| std::iter::once(k), n));
            cmp("repeat.take", all_results(|| std::iter::repeat(k).take(1), n));
        }
        let rev: Vec<char> = s.iter().rev().copied().collect();
        let cut = w.rng.below(n + 1);
        let padded: Vec<char> = std::iter::repeat('Q').take(3).chain(s.iter().copied()).collect();
        // a few kinds per case, all kinds over the run
        let kinds = 15;
        let a = w.rng.below(kinds);
        for k in [a, (a + 1 + w.rng.below(kinds - 1)) % kinds] {
            match k {
                0 => cmp("Chars", all_results(|| st.chars(), n)),
                1 => cmp("Vec::into_iter", all_results(|| s.to_vec().into_iter(), n)),
                2 => cmp("filter", all_results(|| s.iter().filter(|_| true).copied(), n)),
                3 => cmp("Box<dyn Iterator>", all_results(|| -> Box<dyn Iterator<Item = char> + '_> { Box::new(st.chars()) }, n)),
                4 => cmp("chain", all_results(|| s[..cut].iter().chain(s[cut..].iter()).copied(), n)),
                5 => cmp("reversed", all_results(|| rev.iter().rev().copied(), n)),
                6 => cmp("no size hint", all_results(|| Overshy(st.chars()), n)),
                7 => cmp(
                    "from_fn",
                    all_results(
                        || {
                            let mut i = 0;
                            std::iter::from_fn(move || {
                                i += 1;
                                s.get(i - 1).copied()
                            })
                        },
                        n,
                    ),
                ),
                8 => cmp("skip", all_results(|| padded.iter().skip(3).copied(), n)),
                9 => cmp("flat_map", all_results(|| s.chunks(2).flat_map(|x| x.iter().copied()), n)),
                10 => cmp("peekable", all_results(|| { let mut p = st.chars().peekable(); p.peek(); p }, n)),
                11 => cmp("scan", all_results(|| s.iter().scan(0u8, |_, &c| Some(c)), n)),
                13 => {
                    let mut both = String::from("Q\u{301}e");
                    both.push_str(&st);
                    both.push_str("\u{301}\u{AC00}");
                    let mut part = both.chars();
                    for _ in 0..3 {
                        part.next();
                    }
                    part.next_back();
                    part.next_back();
                    cmp("Chars used from both ends before", all_results(|| part.clone(), n))
                }
                12 => cmp("VecDeque", all_results(|| s.iter().copied().collect::<std::collections::VecDeque<_>>().into_iter(), n)),
                _ => cmp("char_indices.map, cycled", all_results(|| st.char_indices().map(|x| x.1).cycle().take(n), n)),
            }
        }
        // one entry point consumed in some other way, or in two ways in turn
        let m = w.rng.below(WAYS);
        let o = w.rng.below(6);
        let g = match o {
            4 => cjk_mode(s, &st, m),
            5 => ss_mode(s, &st, m),
            f => nf_mode(FORMS[f], s, &st, m),
        };
        expect(|| format!("{} consumed in way {}", OPS[o], m), &base.0[o], &g)?;
        // borrowed: &mut I, dyn
        let mut x = st.chars();
        let g = match w.rng.below(6) {
            0 => (0, drain((&mut x).nfd(), c)),
            1 => (1, drain((&mut x).nfkd(), c)),
            2 => (2, drain((&mut x).nfc(), c)),
            3 => (3, drain((&mut x as &mut dyn Iterator<Item = char>).nfkc(), c)),
            4 => (4, drain((&mut x).cjk_compat_variants(), c)),
            _ => (5, drain(x.by_ref().stream_safe(), c)),
        };
        expect(|| format!("{} over &mut Chars", OPS[g.0]), &base.0[g.0], &g.1)?;
        if x.next().is_some() {
            return fail(format!("{} over &mut Chars", OPS[g.0]), "source consumed", "source not consumed", "");
        }
        // authoritative checks accept a str however it was made
        let owned = st.clone();
        for &f in &FORMS {
            if is(f, &owned) != is(f, &owned[..]) {
                return fail("is", "same", "different", "");
            }
        }
    }
    r?;
    w.st.add("source_kinds_compared", seen);
    // stacks of two or three transformations
    if n <= 2000 {
        let mut ops = vec![];
        for _ in 0..w.rng.range(2, 3) {
            ops.push(w.rng.below(6))
        }
        let mut seq: Vec<char> = s.to_vec();
        for &o in &ops {
            let t = string(&seq);
            seq = match o {
                4 => cjk(&t),
                5 => ss(&t),
                f => nf(FORMS[f], &t),
            };
        }
        fn ap<'a>(i: Box<dyn Iterator<Item = char> + 'a>, o: usize) -> Box<dyn Iterator<Item = char> + 'a> {
            match o {
                0 => Box::new(i.nfd()),
                1 => Box::new(i.nfkd()),
                2 => Box::new(i.nfc()),
                3 => Box::new(i.nfkc()),
                4 => Box::new(i.cjk_compat_variants()),
                _ => Box::new(i.stream_safe()),
            }
        }
        let mut it: Box<dyn Iterator<Item = char> + '_> = Box::new(st.chars());
        for &o in &ops {
            it = ap(it, o)
        }
        w.st.add("stacks", 1);
        expect(|| format!("stacked {}", ops.iter().map(|&o| OPS[o]).collect::<Vec<_>>().join(" then ")), &seq, &drain(it, cap(18 * n)))?;
        // statically typed stacks
        let c = cap(18 * n);
        let pick = w.rng.below(6);
        let (name, a, b) = match pick {
            0 => ("nfd.nfc", drain(st.nfd().nfc(), c), nf(Form::Nfc, &nfs(Form::Nfd, &st))),
            1 => ("stream_safe.nfc", drain(st.stream_safe().nfc(), c), nf(Form::Nfc, &string(&ss(&st)))),
            2 => ("cjk_compat_variants.nfkc", drain(st.cjk_compat_variants().nfkc(), c), nf(Form::Nfkc, &string(&cjk(&st)))),
            3 => ("nfkc.nfd.stream_safe", drain(st.nfkc().nfd().stream_safe(), c), ss(&nfs(Form::Nfd, &nfs(Form::Nfkc, &st)))),
            4 => ("nfc.nfkd.cjk", drain(st.nfc().nfkd().cjk_compat_variants(), c), cjk(&nfs(Form::Nfkd, &nfs(Form::Nfc, &st)))),
            _ => ("cjk.stream_safe.nfd", drain(st.cjk_compat_variants().stream_safe().nfd(), c), nf(Form::Nfd, &string(&ss(&string(&cjk(&st)))))),
        };
        expect(|| format!("stacked {}", name), &b, &a)?;
        // a transformation taken over by another after some characters
        let k = w.rng.below(n.min(12) + 2);
        let top = w.rng.below(6);
        let mut which = 0;
        let pick = w.rng.below(6);
        let mut r: Res = Ok(());
        each_iter!(st.chars(), name, it, {
            if which == pick {
                let mut it = it;
                for _ in 0..k {
                    it.next();
                }
                let full = &base.0[which];
                let t = string(&full[k.min(full.len())..]);
                let (g, e) = match top {
                    0 => (drain(it.nfd(), c), nf(Form::Nfd, &t)),
                    1 => (drain(it.nfkd(), c), nf(Form::Nfkd, &t)),
                    2 => (drain(it.nfc(), c), nf(Form::Nfc, &t)),
                    3 => (drain(it.nfkc(), c), nf(Form::Nfkc, &t)),
                    4 => (drain(it.cjk_compat_variants(), c), cjk(&t)),
                    _ => (drain(it.stream_safe(), c), ss(&t)),
                };
                r = expect(|| format!("{} over what {} left after {} characters", OPS[top], name, k), &e, &g);
            }
            which += 1;
        });
        r?;
        w.st.add("taken_over", 1);
        // checks run directly on a transformation
        let qa = quick(Form::Nfc, st.nfkc());
        let qb = quick(Form::Nfc, nfs(Form::Nfkc, &st).chars());
        if qa != qb {
            return fail("quick NFC over the NFKC iterator", format!("{:?}", qb), format!("{:?}", qa), "");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19
struct Faulty<'a> {
    s: &'a [char],
    i: usize,
    polls: usize,
    fail_at: &'a dyn Fn(usize) -> bool,
}
impl Iterator for Faulty<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let p = self.polls;
        self.polls += 1;
        if (self.fail_at)(p) {
            std::panic::panic_any(Injected);
        }
        let c = self.s.get(self.i).copied();
        self.i += 1;
        c
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.s.len().saturating_sub(self.i);
        (n, Some(n))
    }
}
pub struct Injected;
struct Limited<'a> {
    out: &'a RefCell<String>,
    left: usize,
    after: Cell<usize>,
}
impl Write for Limited<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.chars() {
            self.write_char(c)?
        }
        Ok(())
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        if self.left == 0 {
            self.after.set(self.after.get() + 1);
            return Err(fmt::Error);
        }
        self.left -= 1;
        self.out.borrow_mut().push(c);
        Ok(())
    }
}
fn source_faults<I: Iterator<Item = char>>(name: &str, mut it: I, full: &[char], injected: &Cell<u64>) -> Res {
    let mut got = vec![];
    let mut panics = 0u64;
    loop {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.next())) {
            Ok(Some(c)) => got.push(c),
            Ok(None) => break,
            Err(p) => {
                if !p.is::<Injected>() {
                    std::panic::resume_unwind(p)
                }
                crate::rt::last_panic();
                panics += 1;
            }
        }
        if got.len() > cap(full.len()) || panics > 100_000 {
            return fail(format!("{}: over a source that panicked", name), hex(full), hex(&got), "does not end");
        }
    }
    injected.set(injected.get() + panics);
    expect(|| format!("{}: after the source panicked {} times and was resumed", name, panics), full, &got)
}
pub fn c19(w: &mut W, s: &[char]) -> Res {
    let n = s.len();
    let st = string(s);
    let inj = Cell::new(0);
    // panic at each single poll; at random polls; at every other poll
    let mut plans: Vec<Box<dyn Fn(usize) -> bool>> = vec![];
    if n <= 10 {
        for k in 0..n + 1 {
            plans.push(Box::new(move |p| p == k))
        }
    } else {
        for _ in 0..4 {
            let k = w.rng.below(n + 1);
            plans.push(Box::new(move |p| p == k))
        }
    }
    plans.push(Box::new(|p| p % 2 == 0));
    let seed = w.rng.next();
    plans.push(Box::new(move |p| crate::rng::mix(seed ^ p as u64) % 5 == 0));
    let full = all_results(|| s.iter().copied(), n).0;
    for p in &plans {
        let mut k = 0;
        let mut r = Ok(());
        let (_, h) = heap_of(|| {
            each_iter!(Faulty { s, i: 0, polls: 0, fail_at: &**p }, name, it, {
                if r.is_ok() {
                    r = source_faults(name, it, &full[k], &inj);
                }
                k += 1;
            });
        });
        r?;
        if h.live != 0 {
            return fail("iterators over a panicking source: heap still held after dropping", "0 bytes", format!("{} bytes", h.live), "");
        }
        // abandoned right after the panic
        let (_, h) = heap_of(|| {
            each_iter!(Faulty { s, i: 0, polls: 0, fail_at: &**p }, _name, it, {
                let mut it = it;
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| while it.next().is_some() {})).is_err() {
                    crate::rt::last_panic();
                }
                drop(it);
            });
        });
        if h.live != 0 {
            return fail("iterator dropped after its source panicked: heap still held", "0 bytes", format!("{} bytes", h.live), "");
        }
        // the checks pass the panic on, and leak nothing
        let (_, h) = heap_of(|| {
            for f in 0..6 {
                let src = Faulty { s, i: 0, polls: 0, fail_at: &**p };
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if f < 4 { quick(FORMS[f], src) } else { quick_ss(f == 5, src) })).map_err(|p| {
                    if !p.is::<Injected>() {
                        std::panic::resume_unwind(p)
                    }
                    crate::rt::last_panic();
                });
            }
        });
        if h.live != 0 {
            return fail("quick check over a panicking source: heap still held", "0 bytes", format!("{} bytes", h.live), "");
        }
    }
    // a panic in a callback: passed on, and later calls answer as ever
    for &c in s.iter().take(6) {
        let fns: [(&str, &dyn Fn(char, &mut dyn FnMut(char))); 3] = [
            ("decompose_canonical", &|c, e| uc::decompose_canonical(c, e)),
            ("decompose_compatible", &|c, e| uc::decompose_compatible(c, e)),
            ("decompose_cjk_compat_variants", &|c, e| uc::decompose_cjk_compat_variants(c, e)),
        ];
        for (k, (name, f)) in fns.iter().enumerate() {
            let e = match k {
                0 => w.u.nfd1(c).to_vec(),
                1 => w.u.nfkd1(c).to_vec(),
                _ => w.u.cjk_variants(&[c]),
            };
            let at = w.rng.below(e.len());
            let mut v = vec![];
            let (r, h) = heap_of(|| {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut i = 0;
                    f(c, &mut |_| {
                        if i == at {
                            std::panic::panic_any(Injected)
                        }
                        i += 1
                    })
                }))
                .map_err(|p| {
                    if !p.is::<Injected>() {
                        std::panic::resume_unwind(p)
                    }
                    crate::rt::last_panic();
                })
            });
            if r.is_ok() || h.live != 0 {
                return fail(format!("{} with a callback that panics", name), "the panic, and no heap held", format!("panicked: {}, heap held: {} bytes", r.is_err(), h.live), format!("U+{:04X}", c as u32));
            }
            f(c, &mut |x| v.push(x));
            expect(|| format!("{} of U+{:04X} after a callback panicked", name, c as u32), &e, &v)?;
        }
    }
    // everything answers as before the panics
    let again = all_results(|| s.iter().copied(), n);
    for i in 0..6 {
        expect(|| format!("{} after panics elsewhere", OPS[i]), &full[i], &again.0[i])?;
    }
    w.st.add("source_panics_injected", inj.get());
    // failing writers
    let starts = [0, w.rng.below(n + 1)];
    for skip in starts {
        macro_rules! wr {
            ($name:expr, $mk:expr) => {{
                let mut it = $mk;
                for _ in 0..skip {
                    it.next();
                }
                let rest = drain(it.clone(), cap(n));
                let lim: Vec<usize> = if rest.len() <= 12 { (0..=rest.len()).collect() } else { (0..5).map(|_| w.rng.below(rest.len() + 1)).collect() };
                for k in lim {
                    let out = RefCell::new(String::new());
                    let mut l = Limited { out: &out, left: k, after: Cell::new(0) };
                    let r = write!(l, "{}", it);
                    w.st.add("writers_limited", 1);
                    let o: Vec<char> = out.borrow().chars().collect();
                    if r.is_err() != (k < rest.len()) {
                        return fail(format!("{}: Display to a writer that fails after {} characters", $name, k), if k < rest.len() { "Err" } else { "Ok" }, format!("{:?}", r), "");
                    }
                    expect(|| format!("{}: written before the failure after {}", $name, k), &rest[..k.min(rest.len())], &o)?;
                    if l.after.get() > 1 {
                        return fail(format!("{}: calls to the writer after it failed", $name), "none", (l.after.get() - 1).to_string(), "");
                    }
                }
                expect(|| format!("{}: the iterator after failed Displays", $name), &rest, &drain(it, cap(n)))?;
            }};
        }
        wr!("NFD", st.nfd());
        wr!("NFKD", st.nfkd());
        wr!("NFC", st.nfc());
        wr!("NFKC", st.nfkc());
        wr!("cjk_compat_variants", st.cjk_compat_variants());
    }
    // a source whose clone panics while being displayed: reported, and the original goes on
    Ok(())
}

pub fn run(c: &Ctx) -> bool {
    let t = c.thorough;
    let p = |cost: f64| gen::plan(c, cost);
    match c.prop.as_str() {
        "C12" => standard(c, &p(4.5), &c12),
        "C13" => {
            standard(c, &Plan { lengths: true, ..p(6.0) }, &c13_small);
            // long stream-safe texts: what is held must not depend on the length
            let jobs: Vec<(usize, usize)> = (0..gen::SHAPES).flat_map(|s| [60usize, 3000, 50_000, if t { 1_500_000 } else { 300_000 }].map(|l| (s, l))).rev().collect();
            crate::rt::parallel(c, "stream-safe streams", jobs.len() * if t { 4 } else { 1 }, &|w, i| {
                let (s, l) = jobs[i % jobs.len()];
                let mut r = w.rng.clone();
                let x = gen::long(w.u, &mut r, l, s);
                w.rng = r;
                w.case(&x, &c13_stream);
            });
            // short patterns over and over
            crate::rt::parallel(c, "repeated patterns", if t { 40_000 } else { 2400 }, &|w, _| {
                let mut r = w.rng.clone();
                let mut x = vec![];
                gen::repeated(w.u, &mut r, if w.c.thorough { 12_000 } else { 6000 }, &mut x);
                w.rng = r;
                w.case(&x, &c13_stream);
            });
            gen::random(c, "random stream-safe text", if t { 3_000_000 } else { 150_000 }, 200, &c13_stream);
        }
        "C14" => standard(c, &Plan { alpha_budget: if t { 30_000 } else { 1200 }, ..p(40.0) }, &c14),
        "C15" => standard(c, &Plan { alpha_budget: if t { 60_000 } else { 3000 }, ..p(14.0) }, &c15),
        "C19" => standard(
            c,
            &Plan { contexts: 4, stride: if t { 37 } else { 997 }, pairs: if t { 0.02 } else { 0.0006 }, explode: if t { 0.05 } else { 0.001 }, alpha_budget: if t { 20000 } else { 200 }, alpha_random: 20, random: if t { 1_500_000 } else { 40_000 }, max: 120, lengths: false },
            &c19,
        ),
        _ => return false,
    }
    true
}
