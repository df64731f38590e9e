//! Calls into the library, in the ways users make them.
use crate::rt::{fail, hex, Res};
use crate::ucd::{Form, Q};
use unicode_normalization as un;
use unicode_normalization::{IsNormalized, UnicodeNormalization};

/// longest possible output: the greatest expansion of any character is 18
pub fn cap(n: usize) -> usize {
    20 * n + 64
}
pub fn drain<I: Iterator<Item = char>>(mut it: I, cap: usize) -> Vec<char> {
    let mut v = Vec::with_capacity(16);
    while let Some(c) = it.next() {
        v.push(c);
        if v.len() > cap {
            panic!("monitor: the iterator yielded more than {} characters and goes on", cap)
        }
    }
    v
}
/// plain forward iteration over a &str source
pub fn nf(f: Form, s: &str) -> Vec<char> {
    let n = cap(s.len());
    match f {
        Form::Nfd => drain(s.nfd(), n),
        Form::Nfkd => drain(s.nfkd(), n),
        Form::Nfc => drain(s.nfc(), n),
        Form::Nfkc => drain(s.nfkc(), n),
    }
}
pub fn nfs(f: Form, s: &str) -> String {
    nf(f, s).into_iter().collect()
}
pub fn ss(s: &str) -> Vec<char> {
    drain(s.stream_safe(), cap(s.len()))
}
pub fn cjk(s: &str) -> Vec<char> {
    drain(s.cjk_compat_variants(), cap(s.len()))
}
pub fn string(s: &[char]) -> String {
    s.iter().collect()
}

pub const MODES: usize = 8;
/// number of values of `mode`: source kind, way of consuming, and where the way changes midway
pub const WAYS: usize = 3 * MODES * 16;
/// other ways of running the same transformation to its end
fn by_mode<I: Iterator<Item = char>>(it: I, mode: usize, n: usize) -> Vec<char> {
    let mut it = it;
    let (mode, mode2) = (mode % MODES, mode / MODES % 16);
    match mode {
        0 => drain(it, cap(n)),
        1 => it.collect(),
        2 => it.collect::<String>().chars().collect(),
        3 => {
            let mut v = vec![];
            it.for_each(|c| v.push(c));
            v
        }
        4 => it.fold(vec![], |mut v, c| {
            v.push(c);
            v
        }),
        5 => {
            // one way first, another afterwards
            let k = if mode2 == 15 { n / 2 + 1 } else { mode2 / 2 };
            let mut v: Vec<char> = vec![];
            if mode2 % 2 == 0 {
                v.extend(it.by_ref().take(k))
            } else {
                while v.len() < k {
                    match it.next() {
                        Some(c) => v.push(c),
                        None => break,
                    }
                }
            }
            match mode2 % 5 {
                0 => v.extend(it),
                1 => it.for_each(|c| v.push(c)),
                2 => {
                    v = it.fold(v, |mut v, c| {
                        v.push(c);
                        v
                    })
                }
                3 => {
                    let mut s = String::new();
                    s.extend(it);
                    v.extend(s.chars())
                }
                _ => {
                    it.all(|c| {
                        v.push(c);
                        true
                    });
                }
            }
            v
        }
        6 => {
            let mut v = vec![];
            while let Some(c) = it.nth(0) {
                v.push(c)
            }
            v
        }
        _ => {
            let mut s = String::new();
            s.extend(it);
            s.chars().collect()
        }
    }
}
pub fn nf_mode(f: Form, chars: &[char], s: &str, mode: usize) -> Vec<char> {
    let n = chars.len();
    let m = mode / 3;
    match mode % 3 {
        // on a character iterator
        0 => {
            let i = chars.iter().copied();
            match f {
                Form::Nfd => by_mode(i.nfd(), m, n),
                Form::Nfkd => by_mode(i.nfkd(), m, n),
                Form::Nfc => by_mode(i.nfc(), m, n),
                Form::Nfkc => by_mode(i.nfkc(), m, n),
            }
        }
        1 => match f {
            Form::Nfd => by_mode(s.nfd(), m, n),
            Form::Nfkd => by_mode(s.nfkd(), m, n),
            Form::Nfc => by_mode(s.nfc(), m, n),
            Form::Nfkc => by_mode(s.nfkc(), m, n),
        },
        _ => {
            if n == 1 {
                let c = chars[0];
                match f {
                    Form::Nfd => by_mode(c.nfd(), m, n),
                    Form::Nfkd => by_mode(c.nfkd(), m, n),
                    Form::Nfc => by_mode(c.nfc(), m, n),
                    Form::Nfkc => by_mode(c.nfkc(), m, n),
                }
            } else {
                match f {
                    Form::Nfd => s.nfd().to_string(),
                    Form::Nfkd => s.nfkd().to_string(),
                    Form::Nfc => s.nfc().to_string(),
                    Form::Nfkc => s.nfkc().to_string(),
                }
                .chars()
                .collect()
            }
        }
    }
}
pub fn ss_mode(chars: &[char], s: &str, mode: usize) -> Vec<char> {
    let n = chars.len();
    let m = mode / 3;
    match mode % 3 {
        0 => by_mode(chars.iter().copied().stream_safe(), m, n),
        1 => by_mode(s.stream_safe(), m, n),
        _ if n == 1 => by_mode(chars[0].stream_safe(), m, n),
        _ => by_mode(un::StreamSafe::new(chars.to_vec().into_iter()), m, n),
    }
}
pub fn cjk_mode(chars: &[char], s: &str, mode: usize) -> Vec<char> {
    let n = chars.len();
    let m = mode / 3;
    match mode % 3 {
        0 => by_mode(chars.iter().copied().cjk_compat_variants(), m, n),
        1 => by_mode(s.cjk_compat_variants(), m, n),
        _ if n == 1 => by_mode(chars[0].cjk_compat_variants(), m, n),
        _ => s.cjk_compat_variants().to_string().chars().collect(),
    }
}
pub fn q(i: IsNormalized) -> Q {
    match i {
        IsNormalized::Yes => Q::Yes,
        IsNormalized::No => Q::No,
        IsNormalized::Maybe => Q::Maybe,
    }
}
pub fn quick<I: Iterator<Item = char>>(f: Form, i: I) -> Q {
    q(match f {
        Form::Nfd => un::is_nfd_quick(i),
        Form::Nfkd => un::is_nfkd_quick(i),
        Form::Nfc => un::is_nfc_quick(i),
        Form::Nfkc => un::is_nfkc_quick(i),
    })
}
pub fn quick_ss<I: Iterator<Item = char>>(composed: bool, i: I) -> Q {
    q(if composed { un::is_nfc_stream_safe_quick(i) } else { un::is_nfd_stream_safe_quick(i) })
}
pub fn is(f: Form, s: &str) -> bool {
    match f {
        Form::Nfd => un::is_nfd(s),
        Form::Nfkd => un::is_nfkd(s),
        Form::Nfc => un::is_nfc(s),
        Form::Nfkc => un::is_nfkc(s),
    }
}
pub fn is_ss(composed: bool, s: &str) -> bool {
    if composed {
        un::is_nfc_stream_safe(s)
    } else {
        un::is_nfd_stream_safe(s)
    }
}
/// compares as numbers, so that an invalid value cannot hide
pub fn same(a: &[char], b: &[char]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (*x as u32) == (*y as u32))
}
pub fn expect(op: impl Fn() -> String, exp: &[char], got: &[char]) -> Res {
    if same(exp, got) {
        Ok(())
    } else {
        fail(op(), hex(exp), hex(got), "")
    }
}
/// every value must be a Unicode scalar value
pub fn valid(op: &str, v: &[char]) -> Res {
    for c in v {
        let x = unsafe { std::ptr::read_volatile(c as *const char as *const u32) };
        if x > 0x10FFFF || (0xD800..0xE000).contains(&x) {
            return fail(format!("{}: invalid char", op), "Unicode scalar values", format!("{:X}", x), "");
        }
    }
    Ok(())
}
