//! Runs every public operation on one text and reports the results as hashes; usable without std.
#![cfg_attr(not(feature = "hosted"), no_std)]
extern crate alloc;
use alloc::string::{String, ToString};
use alloc::vec::Vec;
use unicode_normalization as un;
use unicode_normalization::char as uc;
use unicode_normalization::{IsNormalized, UnicodeNormalization};

pub const OPS: [&str; 12] = [
    "NFD", "NFKD", "NFC", "NFKC", "cjk_compat_variants", "stream_safe", "quick checks", "authoritative checks",
    "character functions", "compose of neighbours", "Display, clone, nth", "size_hint and stacking",
];
pub struct H(pub u64);
impl H {
    pub fn u(&mut self, x: u32) {
        for i in 0..4 {
            self.0 = (self.0 ^ (x >> (8 * i) & 255) as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn c(&mut self, c: char) {
        // as stored, whatever it is
        self.u(unsafe { core::ptr::read_volatile(&c as *const char as *const u32) })
    }
    fn all<I: Iterator<Item = char>>(&mut self, i: I, cap: usize) {
        let mut n = 0;
        let mut i = i;
        while let Some(c) = i.next() {
            self.c(c);
            n += 1;
            if n > cap {
                self.u(0xDEAD);
                break;
            }
        }
        self.u(n as u32)
    }
    fn s(&mut self, s: &str) {
        for b in s.as_bytes() {
            self.u(*b as u32)
        }
        self.u(s.len() as u32)
    }
    fn q(&mut self, q: IsNormalized) {
        self.u(match q {
            IsNormalized::Yes => 1,
            IsNormalized::No => 2,
            IsNormalized::Maybe => 3,
        })
    }
}
pub fn new() -> H {
    H(0xcbf29ce484222325)
}
pub fn run_op(op: usize, t: &[char], s: &str) -> u64 {
    let mut h = new();
    let cap = 20 * t.len() + 64;
    match op {
        0 => {
            h.all(s.nfd(), cap);
            h.all(t.iter().copied().nfd(), cap)
        }
        1 => {
            h.all(s.nfkd(), cap);
            h.all(t.iter().copied().nfkd(), cap)
        }
        2 => {
            h.all(s.nfc(), cap);
            h.all(t.iter().copied().nfc(), cap)
        }
        3 => {
            h.all(s.nfkc(), cap);
            h.all(t.iter().copied().nfkc(), cap)
        }
        4 => {
            h.all(s.cjk_compat_variants(), cap);
            h.all(t.iter().copied().cjk_compat_variants(), cap)
        }
        5 => {
            h.all(s.stream_safe(), cap);
            h.all(t.iter().copied().stream_safe(), cap)
        }
        6 => {
            h.q(un::is_nfd_quick(s.chars()));
            h.q(un::is_nfkd_quick(s.chars()));
            h.q(un::is_nfc_quick(s.chars()));
            h.q(un::is_nfkc_quick(s.chars()));
            h.q(un::is_nfd_stream_safe_quick(s.chars()));
            h.q(un::is_nfc_stream_safe_quick(s.chars()));
        }
        7 => {
            let mut one = |s: &str| {
                for b in [un::is_nfd(s), un::is_nfkd(s), un::is_nfc(s), un::is_nfkc(s), un::is_nfd_stream_safe(s), un::is_nfc_stream_safe(s)] {
                    h.u(b as u32)
                }
            };
            one(s);
            let c: String = s.nfc().collect();
            one(&c);
            let c: String = s.nfkd().collect();
            one(&c);
        }
        8 => {
            for &c in t {
                char_ops(&mut h, c)
            }
            let v = un::UNICODE_VERSION;
            h.u(v.0 as u32);
            h.u(v.1 as u32);
            h.u(v.2 as u32);
        }
        9 => {
            for w in t.windows(2) {
                h.u(uc::compose(w[0], w[1]).map_or(0, |c| c as u32));
                h.u(uc::compose(w[1], w[0]).map_or(0, |c| c as u32));
            }
        }
        10 => {
            h.s(&s.nfd().to_string());
            h.s(&s.nfkc().to_string());
            h.s(&s.cjk_compat_variants().to_string());
            let mut i = s.nfc();
            i.nth(t.len() / 2);
            let c = i.clone();
            h.all(i, cap);
            h.s(&c.to_string());
            h.u(s.nfkd().count() as u32);
            h.u(s.nfd().last().map_or(0, |c| c as u32));
            let v: Vec<char> = s.nfkc().collect();
            h.all(v.into_iter(), cap);
        }
        _ => {
            let mut i = t.iter().copied().nfkd();
            for _ in 0..t.len().min(40) {
                let (a, b) = i.size_hint();
                h.u(a as u32);
                h.u(b.map_or(0xFFFF_FFFF, |x| x as u32));
                i.next();
            }
            let mut i = t.iter().copied().cjk_compat_variants();
            for _ in 0..t.len().min(40) {
                h.u(i.size_hint().0 as u32);
                i.next();
            }
            h.all(s.nfkd().stream_safe().nfc(), 2 * cap);
            h.all(s.cjk_compat_variants().nfkc(), cap);
            if t.len() == 1 {
                h.all(t[0].nfd(), cap);
                h.all(t[0].nfkd(), cap);
                h.all(t[0].nfc(), cap);
                h.all(t[0].nfkc(), cap);
                h.all(t[0].stream_safe(), cap);
                h.all(t[0].cjk_compat_variants(), cap);
            }
        }
    }
    h.0
}
fn char_ops(h: &mut H, c: char) {
    let mut n = 0;
    uc::decompose_canonical(c, |x| {
        h.c(x);
        n += 1
    });
    uc::decompose_compatible(c, |x| {
        h.c(x);
        n += 1
    });
    uc::decompose_cjk_compat_variants(c, |x| {
        h.c(x);
        n += 1
    });
    h.u(n);
    h.u(uc::canonical_combining_class(c) as u32);
    h.u(uc::is_combining_mark(c) as u32);
    h.u(uc::is_public_assigned(c) as u32);
}
/// what is recorded for one scalar in the exhaustive sweep: lookups, forms, checks and a few compositions
pub fn scalar(h: &mut H, c: char) {
    char_ops(h, c);
    let mut b = [0u8; 4];
    let s: &str = c.encode_utf8(&mut b);
    h.all(s.nfc(), 100);
    h.all(s.nfkc(), 100);
    h.all(s.nfkd(), 100);
    h.all(s.stream_safe(), 100);
    h.q(un::is_nfc_quick(s.chars()));
    h.q(un::is_nfkc_quick(s.chars()));
    h.q(un::is_nfd_quick(s.chars()));
    h.q(un::is_nfkd_quick(s.chars()));
    h.q(un::is_nfc_stream_safe_quick(s.chars()));
    for k in ['\u{300}', '\u{301}', '\u{338}', '\u{3099}', '\u{1161}', '\u{11A8}', '\u{9BE}', '\u{16121}'] {
        h.u(uc::compose(c, k).map_or(0, |c| c as u32));
    }
    for k in ['a', '\u{1100}', '\u{AC00}', '\u{9C7}', '\u{1611E}', '\u{F71}'] {
        h.u(uc::compose(k, c).map_or(0, |c| c as u32));
    }
}
fn hex(out: &mut String, mut x: u64, w: usize) {
    let mut b = [b'0'; 16];
    let mut i = 16;
    while x > 0 || i > 16 - w {
        i -= 1;
        b[i] = b"0123456789abcdef"[(x & 15) as usize];
        x >>= 4;
    }
    for &c in &b[i..] {
        out.push(c as char)
    }
}
/// one input line -> one output line: "S a b" sweeps the scalars a..b, "P a b c" composes a with the scalars b..c both ways,
/// "T hex hex ..." runs every operation on a text
pub fn line(l: &str) -> String {
    let mut out = String::new();
    let mut f = l.split(' ');
    match f.next() {
        Some("S") => {
            let a = u32::from_str_radix(f.next().unwrap_or("0"), 16).unwrap_or(0);
            let b = u32::from_str_radix(f.next().unwrap_or("0"), 16).unwrap_or(0);
            let mut h = new();
            for x in a..b {
                if let Some(c) = char::from_u32(x) {
                    scalar(&mut h, c)
                }
            }
            hex(&mut out, h.0, 16)
        }
        Some("P") => {
            let mut n = || u32::from_str_radix(f.next().unwrap_or("0"), 16).unwrap_or(0);
            let (a, b0, b1) = (n(), n(), n());
            let mut h = new();
            if let Some(a) = char::from_u32(a) {
                for x in b0..b1 {
                    if let Some(c) = char::from_u32(x) {
                        h.u(uc::compose(a, c).map_or(0, |c| c as u32));
                        h.u(uc::compose(c, a).map_or(0, |c| c as u32));
                    }
                }
            }
            hex(&mut out, h.0, 16)
        }
        Some("T") => {
            let t: Vec<char> = f.filter_map(|x| u32::from_str_radix(x, 16).ok().and_then(char::from_u32)).collect();
            let s: String = t.iter().collect();
            for op in 0..OPS.len() {
                if op > 0 {
                    out.push(' ')
                }
                hex(&mut out, run_op(op, &t, &s), 16)
            }
        }
        _ => out.push('?'),
    }
    out
}
