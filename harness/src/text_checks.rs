//! C01..C11: what the transformations, checks and lookups answer.
use crate::gen::{self, standard, Plan};
use crate::ops::*;
use crate::rng::Rng;
use crate::rt::{fail, hex, parallel, Ctx, Res, W};
use crate::ucd::{scalars, Cov, Form, Q, Ucd, CGJ, FORMS};
use std::sync::atomic::Ordering::Relaxed;
use unicode_normalization as un;
use unicode_normalization::char as uc;

fn mode(w: &mut W, s: &[char]) -> usize {
    // long cases: the cheap variety of ways is spread over the cases
    if s.len() > 3000 {
        w.rng.below(6)
    } else {
        w.rng.below(WAYS)
    }
}

// ---------------------------------------------------------------- C01, C02
fn exact(w: &mut W, s: &[char], fs: &[Form]) -> Res {
    let st = string(s);
    for &f in fs {
        let e = w.u.nf_with(f, s, &mut w.st.cov);
        expect(|| f.name().into(), &e, &nf(f, &st))?;
        let m = mode(w, s);
        expect(|| format!("{} (consumed in way {})", f.name(), m), &e, &nf_mode(f, s, &st, m))?;
    }
    Ok(())
}
pub fn c01(w: &mut W, s: &[char]) -> Res {
    exact(w, s, &[Form::Nfd, Form::Nfkd])
}
pub fn c02(w: &mut W, s: &[char]) -> Res {
    exact(w, s, &[Form::Nfc, Form::Nfkc])
}

// ---------------------------------------------------------------- C03
/// a random walk through texts canonically (compatibly) equivalent to `s`, using the UCD facts only
fn walk(u: &Ucd, r: &mut Rng, s: &[char], compat: bool, steps: usize) -> Vec<char> {
    let mut t = s.to_vec();
    for _ in 0..steps {
        if t.is_empty() {
            return t;
        }
        let i = r.below(t.len());
        match r.below(if compat { 6 } else { 5 }) {
            0 => {
                let d = u.nfd1(t[i]).to_vec();
                t.splice(i..=i, d);
            }
            1 => {
                if let Some(d) = u.canon_raw.get(&(t[i] as u32)) {
                    t.splice(i..=i, d.iter().copied());
                }
            }
            2 | 3 => {
                if i + 1 < t.len() {
                    let (a, b) = (u.cc(t[i]), u.cc(t[i + 1]));
                    if a != b && a != 0 && b != 0 {
                        t.swap(i, i + 1)
                    } else if let Some(c) = u.compose_pair(t[i], t[i + 1]) {
                        t.splice(i..i + 2, [c]);
                    }
                }
            }
            4 => {
                // any character whose canonical mapping is what stands here (singletons and excluded ones included)
                let c = r.pick(&u.canon);
                let d = &u.canon_raw[&(c as u32)];
                if let Some(p) = t.windows(d.len()).position(|x| x == &d[..]) {
                    t.splice(p..p + d.len(), [c]);
                }
            }
            _ => {
                if let Some(d) = u.compat_raw.get(&(t[i] as u32)) {
                    t.splice(i..=i, d.iter().copied());
                } else {
                    let c = r.pick(&u.compat);
                    let d = &u.compat_raw[&(c as u32)];
                    if let Some(p) = t.windows(d.len()).position(|x| x == &d[..]) {
                        t.splice(p..p + d.len(), [c]);
                    }
                }
            }
        }
    }
    t
}
pub fn c03(w: &mut W, s: &[char]) -> Res {
    use Form::*;
    let st = string(s);
    let o: Vec<String> = FORMS.iter().map(|&f| nfs(f, &st)).collect();
    let by = |f: Form| &o[f as usize];
    let chk = |op: String, exp: &str, got: &str| -> Res {
        if exp == got {
            Ok(())
        } else {
            fail(op, hex(&exp.chars().collect::<Vec<_>>()), hex(&got.chars().collect::<Vec<_>>()), "")
        }
    };
    // g(f(x)) = h(x)
    for (g, f, h) in [
        (Nfd, Nfd, Nfd), (Nfc, Nfc, Nfc), (Nfkd, Nfkd, Nfkd), (Nfkc, Nfkc, Nfkc),
        (Nfc, Nfd, Nfc), (Nfd, Nfc, Nfd), (Nfkd, Nfd, Nfkd), (Nfkd, Nfc, Nfkd), (Nfkc, Nfd, Nfkc), (Nfkc, Nfc, Nfkc),
        (Nfkc, Nfkd, Nfkc), (Nfkd, Nfkc, Nfkd), (Nfc, Nfkc, Nfkc), (Nfd, Nfkd, Nfkd), (Nfc, Nfkd, Nfkc), (Nfd, Nfkc, Nfkd),
    ] {
        chk(format!("{}({}(x)) = {}(x)", g.name(), f.name(), h.name()), by(h), &nfs(g, by(f)))?;
    }
    w.st.add("chain_relations_checked", 16);
    if s.len() <= 400 {
        for compat in [false, true] {
            let k = w.rng.range(1, 3 + 2 * s.len().min(20));
            let mut r = w.rng.clone();
            let t = walk(w.u, &mut r, s, compat, k);
            w.rng = r;
            if t != s {
                w.st.add(if compat { "compatible_pairs" } else { "equivalent_pairs" }, 1);
                let ts = string(&t);
                for &f in FORMS.iter().filter(|f| f.compat() || !compat) {
                    chk(format!("{} of an equivalent text [{}]", f.name(), hex(&t)), by(f), &nfs(f, &ts))?;
                }
            }
        }
    }
    // concatenation at boundaries
    if s.len() > 1 {
        for &f in &FORMS {
            for _ in 0..2 {
                let i = 1 + w.rng.below(s.len() - 1);
                if w.u.boundary_before(f, s[i]) {
                    let mut a = nfs(f, &string(&s[..i]));
                    a.push_str(&nfs(f, &string(&s[i..])));
                    w.st.add("boundary_splits", 1);
                    chk(format!("{} split before character {}", f.name(), i), &a, by(f))?;
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
fn chk_pair(u: &Ucd, a: char, b: char) -> Res {
    let e = u.compose_pair(a, b);
    let g = uc::compose(a, b);
    if e.map(|c| c as u32) != g.map(|c| c as u32) {
        return fail("char::compose", format!("{:X?}", e.map(|c| c as u32)), format!("{:X?}", g.map(|c| c as u32)), "");
    }
    Ok(())
}
pub fn c04(w: &mut W, s: &[char]) -> Res {
    for &c in s {
        let mut v = vec![];
        uc::decompose_canonical(c, |x| v.push(x));
        expect(|| "char::decompose_canonical".into(), &w.u.nfd1(c), &v)?;
        v.clear();
        uc::decompose_compatible(c, |x| v.push(x));
        expect(|| "char::decompose_compatible".into(), &w.u.nfkd1(c), &v)?;
    }
    for i in 1..s.len() {
        chk_pair(w.u, s[i - 1], s[i])?;
    }
    Ok(())
}
fn pair_block(w: &mut W, a: &[char], b: &[char], bad: &mut usize) {
    let u = w.u;
    for &x in a {
        for &y in b {
            if chk_pair(u, x, y).is_err() {
                *bad += 1;
                if *bad < 50 {
                    w.case(&[x, y], &c04)
                }
            }
        }
    }
    w.st.evals += a.len() as u64 * b.len() as u64;
    w.st.add("pairs_checked", a.len() as u64 * b.len() as u64);
}
fn run_c04(c: &Ctx) {
    let u = c.u;
    gen::scalars_in_context(c, "every-scalar", 2, 1, &c04);
    let bad = |w: &mut W, a: &[char], b: &[char]| {
        let mut n = 0;
        for x in a {
            if w.c.stop.load(Relaxed) {
                return;
            }
            pair_block(w, &[*x], b, &mut n)
        }
    };
    let all: Vec<char> = scalars().collect();
    let it = &u.interesting;
    let blk = |v: &[char], i: usize, k: usize| v[(i * k).min(v.len())..(i * k + k).min(v.len())].to_vec();
    parallel(c, "interesting x interesting", it.len().div_ceil(128), &|w, i| bad(w, &blk(it, i, 128), it));
    parallel(c, "every scalar x combining", all.len().div_ceil(4096), &|w, i| bad(w, &blk(&all, i, 4096), &u.seconds));
    parallel(c, "combinable first x every scalar", u.firsts.len().div_ceil(4), &|w, i| bad(w, &blk(&u.firsts, i, 4), &all));
    let bmp: Vec<char> = all.iter().copied().filter(|&c| (c as u32) < 0x10000).collect();
    if c.thorough {
        parallel(c, "BMP x BMP", bmp.len().div_ceil(64), &|w, i| bad(w, &blk(&bmp, i, 64), &bmp));
        // everything x the planes' images of the characters that combine
        let mut img = vec![];
        for &x in u.seconds.iter().chain(u.firsts.iter()) {
            for p in 0..17u32 {
                img.extend(char::from_u32((x as u32 & 0xFFFF) | p << 16))
            }
        }
        img.sort();
        img.dedup();
        parallel(c, "plane images", img.len().div_ceil(64), &|w, i| bad(w, &blk(&img, i, 64), &img));
    }
    // characters that are the first of no composition: with every second, nothing comes out; a seed-chosen share of them
    let share = if c.thorough { 12 } else { 700 };
    let off = (crate::rng::mix(c.seed ^ 77) % share) as usize;
    let none: Vec<char> = all.iter().copied().filter(|x| u.firsts.binary_search(x).is_err()).skip(off).step_by(share as usize).collect();
    parallel(c, "uncombinable first x every scalar", none.len().div_ceil(2), &|w, i| {
        for &a in none.iter().skip(i * 2).take(2) {
            if w.c.stop.load(Relaxed) {
                return;
            }
            let mut bad = 0;
            for &b in &all {
                if uc::compose(a, b).is_some() && chk_pair(u, a, b).is_err() {
                    bad += 1;
                    if bad < 20 {
                        w.case(&[a, b], &c04)
                    }
                }
            }
            w.st.evals += all.len() as u64;
            w.st.add("pairs_checked", all.len() as u64);
        }
    });
    parallel(c, "random pairs", if c.thorough { 20000 } else { 1000 }, &|w, _| {
        let mut n = 0;
        for _ in 0..300 {
            let a = gen::any_char(w.u, &mut w.rng);
            let b: Vec<char> = (0..200).map(|_| if w.rng.chance(1, 2) { char::from_u32(w.rng.below(0x110000) as u32).unwrap_or('x') } else { gen::any_char(w.u, &mut w.rng) }).collect();
            pair_block(w, &[a], &b, &mut n)
        }
    });
}

// ---------------------------------------------------------------- C05
pub fn c05(w: &mut W, s: &[char]) -> Res {
    if un::UNICODE_VERSION != w.u.version {
        return fail("UNICODE_VERSION", format!("{:?}", w.u.version), format!("{:?}", un::UNICODE_VERSION), "");
    }
    for &c in s {
        let i = c as usize;
        if uc::canonical_combining_class(c) != w.u.ccc[i] {
            return fail("canonical_combining_class", w.u.ccc[i].to_string(), uc::canonical_combining_class(c).to_string(), format!("U+{:04X}", i));
        }
        if uc::is_combining_mark(c) != w.u.mark[i] {
            return fail("is_combining_mark", w.u.mark[i].to_string(), uc::is_combining_mark(c).to_string(), format!("U+{:04X}", i));
        }
        if uc::is_public_assigned(c) != w.u.public[i] {
            return fail("is_public_assigned", w.u.public[i].to_string(), uc::is_public_assigned(c).to_string(), format!("U+{:04X}", i));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06
pub fn c06(w: &mut W, s: &[char]) -> Res {
    let u = w.u;
    let st = string(s);
    for (i, &c) in s.iter().enumerate() {
        if u.public[c as usize] {
            continue;
        }
        let n = |op: &str, exp: &str, got: String| fail(op, exp, got, format!("U+{:04X}", c as u32));
        if uc::canonical_combining_class(c) != 0 {
            return n("combining class of an unassigned character", "0", uc::canonical_combining_class(c).to_string());
        }
        if uc::is_combining_mark(c) || uc::is_public_assigned(c) {
            return n("is_combining_mark, is_public_assigned of an unassigned character", "false, false", format!("{}, {}", uc::is_combining_mark(c), uc::is_public_assigned(c)));
        }
        let mut v = vec![];
        uc::decompose_canonical(c, |x| v.push(x));
        uc::decompose_compatible(c, |x| v.push(x));
        uc::decompose_cjk_compat_variants(c, |x| v.push(x));
        expect(|| "decompositions of an unassigned character".into(), &[c, c, c], &v)?;
        for (a, b) in [(i.checked_sub(1).map(|j| s[j]), Some(c)), (Some(c), s.get(i + 1).copied())] {
            if let (Some(a), Some(b)) = (a, b) {
                if let Some(x) = uc::compose(a, b) {
                    return n("compose with an unassigned character", "None", format!("{:X}", x as u32));
                }
            }
        }
        let (x, y) = (string(&s[..i]), string(&s[i + 1..]));
        for &f in &FORMS {
            let mut e = nf(f, &x);
            e.push(c);
            e.extend(nf(f, &y));
            expect(|| format!("{} of x + unassigned + y", f.name()), &e, &nf(f, &st))?;
            // a check accepts x + c + y as it accepts x and y
            let (qx, qy, qs) = (quick(f, x.chars()), quick(f, y.chars()), quick(f, st.chars()));
            let ok = match (qx, qy) {
                (Q::Yes, Q::Yes) => qs == Q::Yes,
                (Q::No, _) | (_, Q::No) => qs != Q::Yes,
                _ => !(qs == Q::No && is(f, &x) && is(f, &y)),
            };
            if !ok {
                return n(&format!("quick {} of x + unassigned + y", f.name()), &format!("as x: {:?}, y: {:?}", qx, qy), format!("{:?}", qs));
            }
            if is(f, &st) != (is(f, &x) && is(f, &y)) {
                return n(&format!("is {} of x + unassigned + y", f.name()), &format!("{}", is(f, &x) && is(f, &y)), format!("{}", is(f, &st)));
            }
        }
        for comp in [false, true] {
            let e = is_ss(comp, &x) && is_ss(comp, &y);
            if is_ss(comp, &st) != e {
                return n("stream-safe check of x + unassigned + y", &e.to_string(), (!e).to_string());
            }
        }
        let mut e = ss(&x);
        e.push(c);
        e.extend(ss(&y));
        expect(|| "stream_safe of x + unassigned + y".into(), &e, &ss(&st))?;
        let mut e = cjk(&x);
        e.push(c);
        e.extend(cjk(&y));
        expect(|| "cjk_compat_variants of x + unassigned + y".into(), &e, &cjk(&st))?;
    }
    Ok(())
}
fn run_c06(c: &Ctx) {
    let u = c.u;
    let un_: Vec<char> = scalars().filter(|&x| !u.public[x as usize]).collect();
    let per = 512;
    parallel(c, "every non-public scalar between neighbours", un_.len().div_ceil(per), &|w, i| {
        for &k in &un_[i * per..(i * per + per).min(un_.len())] {
            if w.c.stop.load(Relaxed) {
                return;
            }
            w.case(&[k], &c06);
            let r = &mut w.rng;
            let a = if r.chance(1, 2) { r.pick(&u.firsts) } else { r.pick(&u.interesting) };
            let b = if r.chance(1, 2) { r.pick(&u.seconds) } else { r.pick(&u.nonst) };
            w.case(&[a, k, b], &c06);
            let r = &mut w.rng;
            let t = [r.pick(&u.nonst), r.pick(&u.firsts), k, r.pick(&u.seconds), r.pick(&u.nonst)];
            if w.rng.chance(1, 4) || w.c.thorough {
                w.case(&t, &c06);
            }
        }
    });
    // no pair with a non-public side composes
    parallel(c, "non-public x combining, combinable x non-public", un_.len().div_ceil(per), &|w, i| {
        for &k in &un_[i * per..(i * per + per).min(un_.len())] {
            for (a, b) in u.seconds.iter().map(|&s| (k, s)).chain(u.firsts.iter().map(|&f| (f, k))) {
                if uc::compose(a, b).is_some() {
                    w.case(&[a, b], &c06);
                }
            }
            w.st.add("compose_pairs", (u.seconds.len() + u.firsts.len()) as u64);
        }
    });
    let n = if c.thorough { 3_000_000 } else { 100_000 };
    parallel(c, "random text around non-public characters", n / 200, &|w, _| {
        for _ in 0..200 {
            if w.c.stop.load(Relaxed) {
                return;
            }
            let mut r = w.rng.clone();
            let mut t = gen::text(u, &mut r, 80);
            for _ in 0..r.range(1, 3) {
                let i = r.below(t.len() + 1);
                t.insert(i, r.pick(&un_));
            }
            w.rng = r;
            w.case(&t, &c06);
        }
    });
}

// ---------------------------------------------------------------- C07
pub fn c07(w: &mut W, s: &[char]) -> Res {
    let u = w.u;
    let st = string(s);
    let e = u.cjk_variants(s);
    expect(|| "cjk_compat_variants".into(), &e, &cjk(&st))?;
    let m = mode(w, s);
    expect(|| format!("cjk_compat_variants (consumed in way {})", m), &e, &cjk_mode(s, &st, m))?;
    let mut v = vec![];
    for &c in s {
        uc::decompose_cjk_compat_variants(c, |x| v.push(x))
    }
    expect(|| "char::decompose_cjk_compat_variants".into(), &e, &v)?;
    if s.len() > 5000 {
        return Ok(());
    }
    let got = string(&cjk(&st));
    // dropping the selectors that were added
    let mut dropped = String::new();
    let mut g = got.chars();
    let mut variants = 0;
    for &c in s {
        dropped.extend(g.next());
        if u.variants.contains_key(&(c as u32)) {
            g.next();
            variants += 1;
        }
    }
    w.st.add("variant_characters_replaced", variants);
    for &f in &FORMS {
        expect(|| format!("{} after dropping the added selectors", f.name()), &nf(f, &st), &nf(f, &dropped))?;
        if variants > 0 {
            // the two-character sequences survive, each separating what is around it
            let mut e = vec![];
            let mut seg = String::new();
            for &c in s {
                if let Some(v) = u.variants.get(&(c as u32)) {
                    e.extend(nf(f, &seg));
                    e.extend(v);
                    seg.clear()
                } else {
                    seg.push(c)
                }
            }
            e.extend(nf(f, &seg));
            expect(|| format!("{} of the replaced text", f.name()), &e, &nf(f, &got))?;
        }
    }
    Ok(())
}
fn run_c07(c: &Ctx) {
    let u = c.u;
    gen::scalars_in_context(c, "every-scalar", if c.thorough { 8 } else { 3 }, 1, &c07);
    let v = &u.cjk;
    parallel(c, "variants with every kind of neighbour", v.len(), &|w, i| {
        for n in 0..(if w.c.thorough { 4000 } else { 400 }) {
            let r = &mut w.rng;
            let x = r.pick(&u.interesting);
            let y = r.pick(&u.nonst);
            let z = r.pick(v);
            let t: Vec<char> = match n % 5 {
                0 => vec![x, v[i], y],
                1 => vec![v[i], '\u{FE00}', v[i]],
                2 => vec![v[i], z, z],
                3 => vec![y, v[i], x, z, '\u{FE01}', y],
                _ => vec![v[i], v[(i + 1) % v.len()], x, v[i]],
            };
            w.case(&t, &c07);
        }
    });
    gen::random(c, "random-text", if c.thorough { 20_000_000 } else { 600_000 }, 200, &|w: &mut W, s: &[char]| {
        let mut t = s.to_vec();
        let mut r = w.rng.clone();
        for _ in 0..r.below(4) {
            let i = r.below(t.len() + 1);
            t.insert(i, r.pick(v))
        }
        w.rng = r;
        c07(w, &t)
    });
    gen::lengths(c, "long-runs", false, &c07);
}

// ---------------------------------------------------------------- C08, C09
pub fn c08(w: &mut W, s: &[char]) -> Res {
    for &f in &FORMS {
        let truth = w.u.nf_with(f, s, &mut w.st.cov) == s;
        let m = w.u.quick(f, s);
        let g = match w.rng.below(3) {
            0 => quick(f, string(s).chars()),
            1 => quick(f, s.iter().copied()),
            _ => quick(f, s.iter().filter(|_| true).cloned()),
        };
        w.st.add(
            match (f.composed(), g) {
                (true, Q::Yes) => "composed_yes",
                (true, Q::No) => "composed_no",
                (true, Q::Maybe) => "composed_maybe",
                (false, Q::Yes) => "decomposed_yes",
                (false, Q::No) => "decomposed_no",
                (false, Q::Maybe) => "decomposed_maybe",
            },
            1,
        );
        let bad = match g {
            Q::Yes => !truth,
            Q::No => truth,
            // the standard algorithm itself must be unable to decide
            Q::Maybe => m != Q::Maybe,
        };
        if bad {
            return fail(format!("quick check {}", f.name()), format!("text in the form: {}; standard quick check: {:?}", truth, m), format!("{:?}", g), "");
        }
    }
    Ok(())
}
pub fn c09(w: &mut W, s: &[char]) -> Res {
    let st = string(s);
    for &f in &FORMS {
        let e = same(&nf(f, &st), s);
        let g = is(f, &st);
        w.st.add(if e { "in_form" } else { "not_in_form" }, 1);
        if e != g {
            return fail(format!("is {}", f.name()), format!("{} (normalising gives {})", e, if e { "the same".to_string() } else { hex(&nf(f, &st)) }), g.to_string(), "");
        }
    }
    Ok(())
}
/// for the checks: also the forms of the text, where a wrong "no" would show, and near misses
fn with_forms(f: impl Fn(&mut W, &[char]) -> Res + Sync) -> impl Fn(&mut W, &[char]) -> Res + Sync {
    move |w: &mut W, s: &[char]| {
        f(w, s)?;
        if s.len() < 300 && !s.is_empty() {
            let k = FORMS[w.rng.below(4)];
            let mut c = Cov::default();
            let t = w.u.nf_with(k, s, &mut c);
            if t != s {
                f(w, &t)?;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C10, C11
pub fn c10(w: &mut W, s: &[char]) -> Res {
    let st = string(s);
    let e = w.u.stream_safe(s, &mut w.st.cov);
    let g = ss(&st);
    expect(|| "stream_safe".into(), &e, &g)?;
    let m = mode(w, s);
    expect(|| format!("stream_safe (consumed in way {})", m), &e, &ss_mode(s, &st, m))?;
    // independent monitors on the output
    let run = w.u.max_nonstarters_nfkd(&g);
    if run > 30 {
        return fail("non-starters in a row in the output", "at most 30", run.to_string(), "");
    }
    if w.u.max_nonstarters_nfkd(s) <= 30 && !same(&g, s) {
        return fail("stream_safe of stream-safe text", hex(s), hex(&g), "");
    }
    let mut j = 0;
    for &c in &g {
        if j < s.len() && c == s[j] {
            j += 1
        } else if c != CGJ {
            return fail("stream_safe minus the joiners", hex(s), hex(&g), "");
        }
    }
    if j != s.len() {
        return fail("stream_safe minus the joiners", hex(s), hex(&g), "");
    }
    expect(|| "stream_safe twice".into(), &g, &ss(&string(&g)))?;
    Ok(())
}
pub fn c11(w: &mut W, s: &[char]) -> Res {
    let u = w.u;
    let st = string(s);
    let safe = u.max_nonstarters_nfkd(s) <= 30;
    let mut in_form = [false; 2];
    for comp in [false, true] {
        let f = if comp { Form::Nfc } else { Form::Nfd };
        let n = u.nf_with(f, s, &mut w.st.cov) == s;
        in_form[comp as usize] = n;
        let e = safe && n;
        let g = is_ss(comp, &st);
        if e != g {
            return fail(format!("is stream-safe {}", f.name()), format!("{} (in form: {}, stream-safe: {})", e, n, safe), g.to_string(), "");
        }
        let q = if w.rng.chance(1, 2) { quick_ss(comp, st.chars()) } else { quick_ss(comp, s.iter().filter(|_| true).copied()) };
        w.st.add(&format!("{}_{:?}{}", f.name(), q, if n && !safe { "_in_form_but_unsafe" } else { "" }), 1);
        let bad = match q {
            Q::Yes => !e,
            Q::No => e,
            Q::Maybe => !s.iter().any(|&c| u.qcv(f, c) == Q::Maybe),
        };
        if bad {
            return fail(format!("quick stream-safe {}", f.name()), format!("in form: {}, stream-safe: {}", n, safe), format!("{:?}", q), "");
        }
    }
    if s.len() > 20000 {
        return Ok(());
    }
    let x = string(&ss(&st));
    let mut c = Cov::default();
    for &f in &FORMS {
        let y = nf(f, &x);
        let run = u.max_nonstarters_nfkd(&y);
        if run > 30 {
            return fail(format!("{} of stream-safe text: non-starters in a row", f.name()), "at most 30", run.to_string(), "");
        }
        if u.nf_with(f, &y, &mut c) != y {
            return fail(format!("{} of stream-safe text", f.name()), "text in that form", hex(&y), "");
        }
        if f == Form::Nfc || f == Form::Nfd {
            if !is_ss(f.composed(), &string(&y)) {
                return fail(format!("is stream-safe {} of a stream-safe text's {}", f.name(), f.name()), "true", "false", hex(&y));
            }
        }
    }
    for comp in [false, true] {
        if in_form[comp as usize] && !is_ss(comp, &x) {
            return fail(format!("stream_safe of text in {}", if comp { "NFC" } else { "NFD" }), "stream-safe text in that form", format!("{} {}", is_ss(comp, &x), hex(&x.chars().collect::<Vec<_>>())), "");
        }
    }
    Ok(())
}
/// exhaustive around the limit: [prefix] + k marks + [every character with special stream-safe counts] + tail
fn around_limit(c: &Ctx, name: &str, f: &gen::Case) {
    let u = c.u;
    let mut sp = u.ss_special.clone();
    sp.extend(u.ccc_reps.iter());
    sp.extend(['a', '\u{AC00}', '\u{AC01}', '\u{34F}', '\u{1161}', '\u{11A8}', '\u{FDFA}', '\u{E000}', '\u{16121}', '\u{113C5}', '\u{16D68}', '\u{10A01}', '\u{9BE}']);
    sp.sort();
    sp.dedup();
    let ks: Vec<usize> = if c.thorough { (0..=64).collect() } else { vec![0, 1, 24, 25, 26, 27, 28, 29, 30, 31, 32, 57, 58, 59, 60, 61] };
    parallel(c, name, sp.len(), &|w, i| {
        let x = sp[i];
        for &k in &ks {
            if w.c.stop.load(Relaxed) {
                return;
            }
            for v in 0..8 {
                let m = w.rng.pick(&u.nonst);
                let mut run: Vec<char> = (0..k).map(|_| if v < 3 { m } else { w.rng.pick(&u.nonst) }).collect();
                if v == 2 || v == 4 || v == 5 {
                    run.sort_by_key(|&c| u.cc(c))
                }
                let mut t = vec![];
                match v {
                    0 => t.extend(run),
                    1 => {
                        t.push('a');
                        t.extend(run)
                    }
                    2 | 3 => {
                        t.push(x);
                        t.extend(run)
                    }
                    _ => {
                        t.push(w.rng.pick(&u.firsts));
                        t.extend(run)
                    }
                }
                if v != 2 {
                    t.push(x)
                }
                if v != 5 {
                    let n = w.rng.below(4);
                    for _ in 0..n {
                        let b = w.rng.pick(&u.nonst);
                        t.push(b)
                    }
                    if w.rng.chance(1, 3) {
                        let b = w.rng.pick(&sp);
                        t.push(b)
                    }
                }
                w.case(&t, f);
            }
        }
    });
}

pub fn run(c: &Ctx) -> bool {
    let p = |cost: f64| gen::plan(c, cost);
    match c.prop.as_str() {
        "C01" => standard(c, &p(0.6), &c01),
        "C02" => standard(c, &p(0.7), &c02),
        "C03" => standard(c, &Plan { contexts: if c.thorough { 14 } else { 6 }, stride: if c.thorough { 1 } else { 3 }, ..p(5.0) }, &c03),
        "C04" => run_c04(c),
        "C05" => {
            gen::scalars_in_context(c, "every-scalar", 1, 1, &c05);
            // and in any order, after any history
            gen::random(c, "random-order", 400_000, 100, &c05);
        }
        "C06" => run_c06(c),
        "C07" => run_c07(c),
        "C08" => standard(c, &p(1.2), &with_forms(c08)),
        "C09" => standard(c, &p(1.2), &with_forms(c09)),
        "C10" => {
            around_limit(c, "around-the-limit", &c10);
            standard(c, &p(0.8), &c10)
        }
        "C11" => {
            around_limit(c, "around-the-limit", &with_forms(c11));
            standard(c, &p(2.0), &with_forms(c11))
        }
        _ => return false,
    }
    true
}
