//! The reference model: Unicode facts (read from a data file, independent of /repo) and naive executable
//! versions of the UAX #15 algorithms over them.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = crate::rng::mix(x)
    }
}
pub type IdB = BuildHasherDefault<IdH>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Nfd,
    Nfkd,
    Nfc,
    Nfkc,
}
pub const FORMS: [Form; 4] = [Form::Nfd, Form::Nfkd, Form::Nfc, Form::Nfkc];
impl Form {
    pub fn compat(self) -> bool {
        matches!(self, Form::Nfkd | Form::Nfkc)
    }
    pub fn composed(self) -> bool {
        matches!(self, Form::Nfc | Form::Nfkc)
    }
    pub fn name(self) -> &'static str {
        match self {
            Form::Nfd => "NFD",
            Form::Nfkd => "NFKD",
            Form::Nfc => "NFC",
            Form::Nfkc => "NFKC",
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Q {
    Yes,
    No,
    Maybe,
}

/// What the model saw while computing reference results: evidence of the events the workload produced.
#[derive(Default, Clone)]
pub struct Cov {
    pub decomposed: u64,
    pub reordered: u64,
    pub composed: u64,
    pub composed_starters: u64,
    pub hangul_composed: u64,
    pub blocked: u64,
    pub excluded: u64,
    pub cgj: u64,
    pub max_run: u64,
}

pub const S_BASE: u32 = 0xAC00;
pub const CGJ: char = '\u{34F}';

pub struct Ucd {
    pub ccc: Vec<u8>,
    nfd_ix: Vec<u32>,
    nfkd_ix: Vec<u32>,
    pool: Vec<(u32, u32)>,
    chars: Vec<char>,
    pub pairs: HashMap<u64, char, IdB>,
    pub canon_raw: HashMap<u32, Vec<char>>,
    pub compat_raw: HashMap<u32, Vec<char>>,
    pub variants: HashMap<u32, Vec<char>>,
    pub mark: Vec<bool>,
    pub public: Vec<bool>,
    pub excl: Vec<bool>,
    /// may be merged into a preceding starter
    pub second: Vec<bool>,
    pub first: Vec<bool>,
    pub qc: [Vec<u8>; 4],
    // pools
    pub nonst: Vec<char>,
    pub ccc_reps: Vec<char>,
    pub by_ccc: Vec<Vec<char>>,
    pub canon: Vec<char>,
    pub compat: Vec<char>,
    pub composites: Vec<char>,
    pub excluded: Vec<char>,
    pub firsts: Vec<char>,
    pub seconds: Vec<char>,
    pub seconds0: Vec<char>,
    pub ss_special: Vec<char>,
    pub cjk: Vec<char>,
    pub hangul: Vec<char>,
    pub qcmaybe: Vec<char>,
    pub interesting: Vec<char>,
    pub pair_list: Vec<(char, char, char)>,
    pub version: (u8, u8, u8),
    pub hangul_on: bool,
}

fn ch(x: u32) -> char {
    char::from_u32(x).expect("scalar")
}
pub fn scalars() -> impl Iterator<Item = char> {
    (0..0x110000u32).filter_map(char::from_u32)
}

impl Ucd {
    pub fn load(path: &str) -> Ucd {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("harness: cannot read {}: {}", path, e));
        let n = 0x110000;
        let mut u = Ucd {
            ccc: vec![0; n],
            nfd_ix: vec![0; n],
            nfkd_ix: vec![0; n],
            pool: vec![(0, 0)],
            chars: vec![],
            pairs: HashMap::default(),
            canon_raw: HashMap::new(),
            compat_raw: HashMap::new(),
            variants: HashMap::new(),
            mark: vec![false; n],
            public: vec![false; n],
            excl: vec![false; n],
            second: vec![false; n],
            first: vec![false; n],
            qc: [vec![0; n], vec![0; n], vec![0; n], vec![0; n]],
            nonst: vec![],
            ccc_reps: vec![],
            by_ccc: vec![vec![]; 256],
            canon: vec![],
            compat: vec![],
            composites: vec![],
            excluded: vec![],
            firsts: vec![],
            seconds: vec![],
            seconds0: vec![],
            ss_special: vec![],
            cjk: vec![],
            hangul: vec![],
            qcmaybe: vec![],
            interesting: vec![],
            pair_list: vec![],
            version: (16, 0, 0),
            hangul_on: true,
        };
        let hex = |s: &str| u32::from_str_radix(s, 16).expect("hex");
        for l in text.lines() {
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let f: Vec<&str> = l.split(';').collect();
            let seq = |s: &str| s.split(' ').map(|x| ch(u32::from_str_radix(x, 16).unwrap())).collect::<Vec<_>>();
            match f[0] {
                "c" => u.ccc[hex(f[1]) as usize] = f[2].parse().unwrap(),
                "d" => {
                    u.canon_raw.insert(hex(f[1]), seq(f[2]));
                }
                "k" => {
                    u.compat_raw.insert(hex(f[1]), seq(f[2]));
                }
                "x" => u.excl[hex(f[1]) as usize] = true,
                "v" => {
                    u.variants.insert(hex(f[1]), seq(f[2]));
                }
                "m" => (hex(f[1])..=hex(f[2])).for_each(|c| u.mark[c as usize] = true),
                "p" => (hex(f[1])..=hex(f[2])).for_each(|c| u.public[c as usize] = true),
                "V" => {
                    let v: Vec<u8> = f[1].split('.').map(|x| x.parse().unwrap()).collect();
                    u.version = (v[0], v[1], v[2]);
                }
                x => panic!("harness: bad data line {}", x),
            }
        }
        u.build();
        u
    }
    fn full(&self, c: char, compat: bool, out: &mut Vec<char>) {
        if let Some(d) = self.canon_raw.get(&(c as u32)) {
            for &x in d {
                self.full(x, compat, out)
            }
        } else if let (true, Some(d)) = (compat, self.compat_raw.get(&(c as u32))) {
            for &x in d {
                self.full(x, compat, out)
            }
        } else {
            self.hangul_or_self(c, out)
        }
    }
    fn hangul_or_self(&self, c: char, out: &mut Vec<char>) {
        let x = c as u32;
        if x >= 0xAC00 && x <= 0xD7A3 {
            let i = x - 0xAC00;
            let t = i % 28;
            let v = (i / 28) % 21;
            let l = i / 588;
            out.push(ch(0x1100 + l));
            out.push(ch(0x1161 + v));
            if t != 0 {
                out.push(ch(0x11A7 + t));
            }
        } else {
            out.push(c)
        }
    }
    fn build(&mut self) {
        let mut keys: Vec<u32> = self.canon_raw.keys().chain(self.compat_raw.keys()).copied().collect();
        keys.sort();
        keys.dedup();
        for &k in &keys {
            for compat in [false, true] {
                let mut v = vec![];
                self.full(ch(k), compat, &mut v);
                if v != [ch(k)] {
                    let ix = self.pool.len() as u32;
                    self.pool.push((self.chars.len() as u32, v.len() as u32));
                    self.chars.extend(v);
                    if compat {
                        self.nfkd_ix[k as usize] = ix
                    } else {
                        self.nfd_ix[k as usize] = ix
                    }
                }
            }
        }
        for (&c, d) in &self.canon_raw {
            if d.len() == 2 && !self.excl[c as usize] {
                assert!(self.pairs.insert((d[0] as u64) << 32 | d[1] as u64, ch(c)).is_none());
                self.first[d[0] as usize] = true;
                self.second[d[1] as usize] = true;
                self.pair_list.push((d[0], d[1], ch(c)));
            } else if d.len() == 1 {
                assert!(self.excl[c as usize]);
            }
        }
        self.pair_list.sort();
        for v in 0x1161..=0x1175u32 {
            self.second[v as usize] = true
        }
        for t in 0x11A8..=0x11C2u32 {
            self.second[t as usize] = true
        }
        for l in 0x1100..=0x1112u32 {
            self.first[l as usize] = true
        }
        for s in 0..399u32 {
            self.first[(S_BASE + s * 28) as usize] = true
        }
        let mut cov = Cov::default();
        for c in scalars() {
            let i = c as usize;
            for (fi, f) in FORMS.iter().enumerate() {
                let n = self.nf_with(*f, &[c], &mut cov);
                let no = n != [c];
                self.qc[fi][i] = if no {
                    1
                } else if f.composed() && (self.second[i] || self.second[self.nfd1(c)[0] as usize]) {
                    2
                } else {
                    0
                };
            }
            let k = self.ccc[i];
            if k != 0 {
                self.nonst.push(c);
                self.by_ccc[k as usize].push(c)
            }
            if self.canon_raw.contains_key(&(c as u32)) {
                self.canon.push(c);
                if self.excl[i] {
                    self.excluded.push(c)
                } else {
                    self.composites.push(c)
                }
            }
            if self.compat_raw.contains_key(&(c as u32)) {
                self.compat.push(c)
            }
            if self.first[i] {
                self.firsts.push(c)
            }
            if self.second[i] {
                self.seconds.push(c);
                if k == 0 {
                    self.seconds0.push(c)
                }
            }
            if self.variants.contains_key(&(c as u32)) {
                self.cjk.push(c)
            }
            if self.qc[2][i] == 2 || self.qc[3][i] == 2 {
                self.qcmaybe.push(c)
            }
            let d = self.nfkd1(c);
            let lead = d.iter().take_while(|&&x| self.ccc[x as usize] != 0).count();
            let trail = d.iter().rev().take_while(|&&x| self.ccc[x as usize] != 0).count();
            if self.nfkd_ix[i] != 0 && (lead > 0 || trail > 0) {
                self.ss_special.push(c);
            }
        }
        for k in 1..256 {
            if !self.by_ccc[k].is_empty() {
                self.ccc_reps.push(self.by_ccc[k][0]);
                let l = self.by_ccc[k].len();
                if l > 1 {
                    self.ccc_reps.push(self.by_ccc[k][l - 1]);
                }
            }
        }
        let mut h: Vec<u32> = vec![0x10FF, 0x1113, 0x1160, 0x1176, 0x11A7, 0x11C3, 0xABFF, 0xD7A4, 0xD7A3, 0xD7FF, 0xE000];
        h.extend(0x1100..=0x1112);
        h.extend(0x1161..=0x1175);
        h.extend(0x11A8..=0x11C2);
        for s in [0u32, 1, 27, 28, 29, 55, 56, 587, 588, 589, 615, 616, 5880, 5907, 10584, 11143, 11144, 11145, 11170, 11171] {
            h.push(S_BASE + s)
        }
        self.hangul = h.iter().map(|&x| ch(x)).collect();
        let mut s: std::collections::BTreeSet<char> = Default::default();
        for v in [&self.nonst, &self.canon, &self.compat, &self.firsts, &self.seconds, &self.ss_special, &self.cjk, &self.hangul] {
            s.extend(v.iter())
        }
        let base: Vec<char> = s.iter().copied().collect();
        // neighbours of everything, and a same-low-bits alias in another plane
        for &c in &base {
            for d in [(c as u32).wrapping_sub(1), c as u32 + 1] {
                if let Some(x) = char::from_u32(d) {
                    s.insert(x);
                }
            }
        }
        for a in 0..0x180u32 {
            s.insert(ch(a));
        }
        for a in [0x200Bu32, 0x200C, 0x200D, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0xE000, 0xF8FF, 0x10FFFF, 0x10000, 0xFE00, 0xFE0F, 0xE0100, 0x34F] {
            s.insert(ch(a));
        }
        self.interesting = s.into_iter().collect();
    }
    pub fn nfd1(&self, c: char) -> Dec {
        self.dec1(c, false)
    }
    pub fn nfkd1(&self, c: char) -> Dec {
        self.dec1(c, true)
    }
    pub fn dec1(&self, c: char, compat: bool) -> Dec {
        let ix = if compat { self.nfkd_ix[c as usize] } else { self.nfd_ix[c as usize] };
        if ix != 0 {
            let (o, l) = self.pool[ix as usize];
            return Dec { a: ['\0'; 3], n: l as u8, p: self.chars[o as usize..].as_ptr() };
        }
        let x = c as u32;
        if (0xAC00..=0xD7A3).contains(&x) {
            let i = x - 0xAC00;
            let t = i % 28;
            return Dec {
                a: [ch(0x1100 + i / 588), ch(0x1161 + (i / 28) % 21), ch(0x11A7 + t)],
                n: if t == 0 { 2 } else { 3 },
                p: std::ptr::null(),
            };
        }
        Dec { a: [c, '\0', '\0'], n: 1, p: std::ptr::null() }
    }
    pub fn cc(&self, c: char) -> u8 {
        self.ccc[c as usize]
    }
    pub fn compose_pair(&self, a: char, b: char) -> Option<char> {
        let (x, y) = (a as u32, b as u32);
        if (0x1100..=0x1112).contains(&x) && (0x1161..=0x1175).contains(&y) {
            return Some(ch(0xAC00 + ((x - 0x1100) * 21 + (y - 0x1161)) * 28));
        }
        if (0xAC00..=0xD7A3).contains(&x) && (x - 0xAC00) % 28 == 0 && (0x11A8..=0x11C2).contains(&y) {
            return Some(ch(x + y - 0x11A7));
        }
        if !self.second[b as usize] {
            return None;
        }
        self.pairs.get(&((a as u64) << 32 | b as u64)).copied()
    }
    /// D68 / D65 full decomposition followed by D109 canonical ordering.
    pub fn decompose(&self, s: &[char], compat: bool, cov: &mut Cov) -> Vec<char> {
        let mut o: Vec<char> = Vec::with_capacity(s.len() + 8);
        for &c in s {
            let d = self.dec1(c, compat);
            if d.len() > 1 || d[0] != c {
                cov.decomposed += 1
            }
            o.extend_from_slice(&d);
        }
        let mut i = 0;
        while i < o.len() {
            if self.cc(o[i]) == 0 {
                i += 1;
                continue;
            }
            let mut j = i;
            while j < o.len() && self.cc(o[j]) != 0 {
                j += 1
            }
            self.order(&mut o[i..j], cov);
            cov.max_run = cov.max_run.max((j - i) as u64);
            i = j;
        }
        o
    }
    fn order(&self, r: &mut [char], cov: &mut Cov) {
        if r.len() <= 48 {
            // D109 literally: exchange adjacent out-of-order pairs until none is left
            loop {
                let mut sw = false;
                for k in 1..r.len() {
                    if self.cc(r[k - 1]) > self.cc(r[k]) {
                        r.swap(k - 1, k);
                        sw = true;
                        cov.reordered += 1;
                    }
                }
                if !sw {
                    break;
                }
            }
        } else {
            // the same result by stable distribution (one bucket per class)
            let mut b: Vec<Vec<char>> = vec![vec![]; 256];
            for &c in r.iter() {
                b[self.cc(c) as usize].push(c)
            }
            let mut k = 0;
            for v in b {
                for c in v {
                    if r[k] != c {
                        cov.reordered += 1
                    }
                    r[k] = c;
                    k += 1;
                }
            }
        }
    }
    /// D117 canonical composition algorithm over an ordered decomposition.
    pub fn compose(&self, d: &[char], cov: &mut Cov) -> Vec<char> {
        let mut o: Vec<char> = Vec::with_capacity(d.len());
        let mut starter: Option<usize> = None;
        for &c in d {
            let k = self.cc(c);
            if let Some(l) = starter {
                // blocked: some character B between L and C with ccc(B)=0 or ccc(B)>=ccc(C); what stands behind L in
                // `o` is the ordered sequence of marks that did not combine, so its last one has the highest class
                let blocked = l + 1 < o.len() && {
                    let b = self.cc(o[o.len() - 1]);
                    b == 0 || b >= k
                };
                if blocked {
                    cov.blocked += 1;
                } else if let Some(p) = self.compose_pair(o[l], c) {
                    o[l] = p;
                    cov.composed += 1;
                    if k == 0 {
                        cov.composed_starters += 1
                    }
                    if (0xAC00..0xD7A4).contains(&(p as u32)) {
                        cov.hangul_composed += 1
                    }
                    continue;
                } else if self.second[c as usize] {
                    cov.excluded += 1;
                }
            }
            if k == 0 {
                starter = Some(o.len());
            }
            o.push(c);
        }
        o
    }
    pub fn nf_with(&self, f: Form, s: &[char], cov: &mut Cov) -> Vec<char> {
        let d = self.decompose(s, f.compat(), cov);
        if f.composed() {
            self.compose(&d, cov)
        } else {
            d
        }
    }
    pub fn qcv(&self, f: Form, c: char) -> Q {
        match self.qc[f as usize][c as usize] {
            0 => Q::Yes,
            1 => Q::No,
            _ => Q::Maybe,
        }
    }
    /// UAX #15 section 9 quick check algorithm.
    pub fn quick(&self, f: Form, s: &[char]) -> Q {
        let mut last = 0;
        let mut r = Q::Yes;
        for &c in s {
            let k = self.cc(c);
            if last > k && k != 0 {
                return Q::No;
            }
            match self.qcv(f, c) {
                Q::No => return Q::No,
                Q::Maybe => r = Q::Maybe,
                Q::Yes => {}
            }
            last = k;
        }
        r
    }
    /// UAX15-D4.
    pub fn stream_safe(&self, s: &[char], cov: &mut Cov) -> Vec<char> {
        let mut o = Vec::with_capacity(s.len());
        let mut n = 0usize;
        for &c in s {
            let d = self.nfkd1(c);
            let init = d.iter().take_while(|&&x| self.cc(x) != 0).count();
            if n + init > 30 {
                o.push(CGJ);
                cov.cgj += 1;
                n = 0;
            }
            if init == d.len() {
                n += d.len()
            } else {
                n = d.iter().rev().take_while(|&&x| self.cc(x) != 0).count()
            }
            o.push(c);
        }
        o
    }
    /// UAX15-D3, directly: longest run of non-starters of the NFKD.
    pub fn max_nonstarters_nfkd(&self, s: &[char]) -> usize {
        let (mut m, mut r) = (0, 0);
        for &c in s {
            for &x in self.nfkd1(c).iter() {
                if self.cc(x) != 0 {
                    r += 1;
                    m = m.max(r)
                } else {
                    r = 0
                }
            }
        }
        m
    }
    pub fn cjk_variants(&self, s: &[char]) -> Vec<char> {
        let mut o = vec![];
        for &c in s {
            match self.variants.get(&(c as u32)) {
                Some(v) => o.extend(v),
                None => o.push(c),
            }
        }
        o
    }
    /// Nothing that precedes `c` can affect or be affected by it in form `f`.
    pub fn boundary_before(&self, f: Form, c: char) -> bool {
        let d = self.dec1(c, f.compat())[0];
        self.cc(d) == 0 && (!f.composed() || !self.second[d as usize])
    }
}

pub struct Dec {
    a: [char; 3],
    n: u8,
    p: *const char,
}
impl std::ops::Deref for Dec {
    type Target = [char];
    fn deref(&self) -> &[char] {
        if self.p.is_null() {
            &self.a[..self.n as usize]
        } else {
            // points into Ucd::chars, which lives for the whole run and never changes after load
            unsafe { std::slice::from_raw_parts(self.p, self.n as usize) }
        }
    }
}
