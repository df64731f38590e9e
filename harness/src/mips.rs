//! A 32-bit big-endian MIPS (release 2, integer instructions) machine: runs a freestanding program, so that the library is
//! observed executing on a big-endian processor at a useful speed. Unaligned accesses, traps and unknown instructions stop it.
use std::io::{Read, Write};

const MEM: usize = 320 << 20;
struct Machine {
    r: [u32; 32],
    hi: u32,
    lo: u32,
    mem: Vec<u8>,
    out: Vec<u8>,
    inp: Vec<u8>,
    at: usize,
    steps: u64,
}
enum Stop {
    Exit(i32),
    Fault(String),
}
type R<T> = Result<T, Stop>;
fn fault<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Fault(s.into()))
}
impl Machine {
    #[inline(always)]
    fn a(&self, a: u32, n: u32) -> R<usize> {
        if a & (n - 1) != 0 {
            return fault(format!("unaligned access to {:08x} of {} bytes", a, n));
        }
        if a < 0x1000 || a as usize + n as usize > MEM {
            return fault(format!("access outside memory: {:08x}", a));
        }
        Ok(a as usize)
    }
    #[inline(always)]
    fn ld32(&self, a: u32) -> R<u32> {
        let a = self.a(a, 4)?;
        // within memory: just checked
        Ok(u32::from_be(unsafe { (self.mem.as_ptr().add(a) as *const u32).read_unaligned() }))
    }
    #[inline(always)]
    fn st32(&mut self, a: u32, v: u32) -> R<()> {
        let a = self.a(a, 4)?;
        unsafe { (self.mem.as_mut_ptr().add(a) as *mut u32).write_unaligned(v.to_be()) };
        Ok(())
    }
    fn syscall(&mut self) -> R<()> {
        let (p, n) = (self.r[5] as usize, self.r[6] as usize);
        match self.r[2] {
            1 => return Err(Stop::Exit(self.r[4] as i32)),
            3 | 4 if p < 0x1000 || p + n > MEM => return fault("system call with a bad buffer"),
            3 => {
                let k = n.min(self.inp.len() - self.at);
                self.mem[p..p + k].copy_from_slice(&self.inp[self.at..self.at + k]);
                self.at += k;
                self.r[2] = k as u32;
            }
            4 => {
                self.out.extend_from_slice(&self.mem[p..p + n]);
                if self.out.len() > 1 << 14 || self.out.ends_with(b"END\n") {
                    self.flush()
                }
                self.r[2] = n as u32;
            }
            k => return fault(format!("system call {}", k)),
        }
        Ok(())
    }
    fn flush(&mut self) {
        let o = std::io::stdout();
        let mut o = o.lock();
        let _ = o.write_all(&self.out);
        let _ = o.flush();
        self.out.clear()
    }
    fn run(&mut self, entry: u32) -> R<()> {
        let mut pc = entry;
        let mut next = entry.wrapping_add(4);
        loop {
            let i = self.ld32(pc)?;
            self.steps += 1;
            let mut target = next.wrapping_add(4);
            let rs = (i >> 21 & 31) as usize;
            let rt = (i >> 16 & 31) as usize;
            let rd = (i >> 11 & 31) as usize;
            let sa = i >> 6 & 31;
            let imm = i as u16 as i16 as i32 as u32;
            let (s, t) = (self.r[rs], self.r[rt]);
            let mut skip = false;
            macro_rules! branch {
                ($c:expr) => {
                    if $c {
                        target = next.wrapping_add(imm << 2)
                    }
                };
                (likely $c:expr) => {
                    if $c {
                        target = next.wrapping_add(imm << 2)
                    } else {
                        skip = true
                    }
                };
            }
            macro_rules! set {
                ($r:expr, $v:expr) => {{
                    let v = $v;
                    self.r[$r] = v
                }};
            }
            macro_rules! trap {
                ($c:expr) => {
                    if $c {
                        return fault("trap");
                    }
                };
            }
            match i >> 26 {
                0 => match i & 63 {
                    0 => set!(rd, t << sa),
                    2 => set!(rd, if rs & 1 == 1 { t.rotate_right(sa) } else { t >> sa }),
                    3 => set!(rd, ((t as i32) >> sa) as u32),
                    4 => set!(rd, t << (s & 31)),
                    6 => set!(rd, if sa & 1 == 1 { t.rotate_right(s & 31) } else { t >> (s & 31) }),
                    7 => set!(rd, ((t as i32) >> (s & 31)) as u32),
                    8 => target = s,
                    9 => {
                        set!(rd, next.wrapping_add(4));
                        target = s
                    }
                    10 => {
                        if t == 0 {
                            set!(rd, s)
                        }
                    }
                    11 => {
                        if t != 0 {
                            set!(rd, s)
                        }
                    }
                    12 => self.syscall()?,
                    13 => return fault("break"),
                    15 => {}
                    16 => set!(rd, self.hi),
                    17 => self.hi = s,
                    18 => set!(rd, self.lo),
                    19 => self.lo = s,
                    24 => {
                        let p = s as i32 as i64 * t as i32 as i64;
                        self.hi = (p >> 32) as u32;
                        self.lo = p as u32
                    }
                    25 => {
                        let p = s as u64 * t as u64;
                        self.hi = (p >> 32) as u32;
                        self.lo = p as u32
                    }
                    26 => {
                        if t != 0 {
                            self.lo = (s as i32).wrapping_div(t as i32) as u32;
                            self.hi = (s as i32).wrapping_rem(t as i32) as u32
                        }
                    }
                    27 => {
                        if t != 0 {
                            self.lo = s / t;
                            self.hi = s % t
                        }
                    }
                    32 => match (s as i32).checked_add(t as i32) {
                        Some(v) => set!(rd, v as u32),
                        None => return fault("overflow"),
                    },
                    33 => set!(rd, s.wrapping_add(t)),
                    34 => match (s as i32).checked_sub(t as i32) {
                        Some(v) => set!(rd, v as u32),
                        None => return fault("overflow"),
                    },
                    35 => set!(rd, s.wrapping_sub(t)),
                    36 => set!(rd, s & t),
                    37 => set!(rd, s | t),
                    38 => set!(rd, s ^ t),
                    39 => set!(rd, !(s | t)),
                    42 => set!(rd, ((s as i32) < t as i32) as u32),
                    43 => set!(rd, (s < t) as u32),
                    48 => trap!(s as i32 >= t as i32),
                    49 => trap!(s >= t),
                    50 => trap!((s as i32) < t as i32),
                    51 => trap!(s < t),
                    52 => trap!(s == t),
                    54 => trap!(s != t),
                    f => return fault(format!("instruction {:08x} (special {})", i, f)),
                },
                1 => match rt {
                    0 => branch!((s as i32) < 0),
                    1 => branch!(s as i32 >= 0),
                    2 => branch!(likely s as i32 <= -1),
                    3 => branch!(likely s as i32 >= 0),
                    16 => {
                        set!(31, next.wrapping_add(4));
                        branch!((s as i32) < 0)
                    }
                    17 => {
                        set!(31, next.wrapping_add(4));
                        branch!(s as i32 >= 0)
                    }
                    31 => {}
                    _ => return fault(format!("instruction {:08x}", i)),
                },
                2 | 3 => {
                    if i >> 26 == 3 {
                        set!(31, next.wrapping_add(4))
                    }
                    target = next & 0xF000_0000 | (i & 0x3FF_FFFF) << 2
                }
                4 => branch!(s == t),
                5 => branch!(s != t),
                6 => branch!(s as i32 <= 0),
                7 => branch!(s as i32 > 0),
                8 => match (s as i32).checked_add(imm as i32) {
                    Some(v) => set!(rt, v as u32),
                    None => return fault("overflow"),
                },
                9 => set!(rt, s.wrapping_add(imm)),
                10 => set!(rt, ((s as i32) < imm as i32) as u32),
                11 => set!(rt, (s < imm) as u32),
                12 => set!(rt, s & i & 0xFFFF),
                13 => set!(rt, s | i & 0xFFFF),
                14 => set!(rt, s ^ i & 0xFFFF),
                15 => set!(rt, i << 16),
                20 => branch!(likely s == t),
                21 => branch!(likely s != t),
                22 => branch!(likely s as i32 <= 0),
                23 => branch!(likely s as i32 > 0),
                28 => {
                    let acc = (self.hi as u64) << 32 | self.lo as u64;
                    let sp = (s as i32 as i64 * t as i32 as i64) as u64;
                    let up = s as u64 * t as u64;
                    let put = |m: &mut Machine, v: u64| {
                        m.hi = (v >> 32) as u32;
                        m.lo = v as u32
                    };
                    match i & 63 {
                        0 => put(self, acc.wrapping_add(sp)),
                        1 => put(self, acc.wrapping_add(up)),
                        2 => set!(rd, s.wrapping_mul(t)),
                        4 => put(self, acc.wrapping_sub(sp)),
                        5 => put(self, acc.wrapping_sub(up)),
                        32 => set!(rd, s.leading_zeros()),
                        33 => set!(rd, s.leading_ones()),
                        f => return fault(format!("instruction {:08x} (special2 {})", i, f)),
                    }
                }
                31 => match i & 63 {
                    0 => {
                        let size = rd as u32 + 1;
                        let v = s >> sa;
                        set!(rt, if size == 32 { v } else { v & ((1 << size) - 1) })
                    }
                    4 => {
                        let (lsb, msb) = (sa, rd as u32);
                        let size = msb - lsb + 1;
                        let m = (if size == 32 { !0 } else { (1u32 << size) - 1 }) << lsb;
                        set!(rt, t & !m | s << lsb & m)
                    }
                    32 => set!(
                        rd,
                        match sa {
                            2 => (t & 0x00FF_00FF) << 8 | (t & 0xFF00_FF00) >> 8,
                            16 => t as u8 as i8 as i32 as u32,
                            24 => t as u16 as i16 as i32 as u32,
                            _ => return fault(format!("instruction {:08x}", i)),
                        }
                    ),
                    f => return fault(format!("instruction {:08x} (special3 {})", i, f)),
                },
                op @ 32..=46 => {
                    let a = s.wrapping_add(imm);
                    match op {
                        32 => set!(rt, self.mem[self.a(a, 1)?] as i8 as i32 as u32),
                        36 => set!(rt, self.mem[self.a(a, 1)?] as u32),
                        33 | 37 => {
                            let p = self.a(a, 2)?;
                            let v = u16::from_be_bytes([self.mem[p], self.mem[p + 1]]);
                            set!(rt, if op == 33 { v as i16 as i32 as u32 } else { v as u32 })
                        }
                        35 => set!(rt, self.ld32(a)?),
                        34 => {
                            let k = (a & 3) * 8;
                            let v = self.ld32(a & !3)?;
                            set!(rt, v << k | (t & ((1u64 << k) - 1) as u32))
                        }
                        38 => {
                            let k = (3 - (a & 3)) * 8;
                            let v = self.ld32(a & !3)?;
                            set!(rt, v >> k | (t & !((!0u32) >> k)))
                        }
                        40 => {
                            let p = self.a(a, 1)?;
                            self.mem[p] = t as u8
                        }
                        41 => {
                            let p = self.a(a, 2)?;
                            self.mem[p..p + 2].copy_from_slice(&(t as u16).to_be_bytes())
                        }
                        43 => self.st32(a, t)?,
                        42 => {
                            let k = (a & 3) * 8;
                            let v = self.ld32(a & !3)?;
                            self.st32(a & !3, t >> k | (v & !((!0u32) >> k)))?
                        }
                        46 => {
                            let k = (3 - (a & 3)) * 8;
                            let v = self.ld32(a & !3)?;
                            self.st32(a & !3, t << k | (v & ((1u64 << k) - 1) as u32))?
                        }
                        _ => return fault(format!("instruction {:08x}", i)),
                    }
                }
                48 => set!(rt, self.ld32(s.wrapping_add(imm))?),
                51 => {}
                56 => {
                    self.st32(s.wrapping_add(imm), t)?;
                    set!(rt, 1)
                }
                _ => return fault(format!("instruction {:08x}", i)),
            }
            self.r[0] = 0;
            if skip {
                pc = next.wrapping_add(4);
                next = pc.wrapping_add(4)
            } else {
                pc = next;
                next = target
            }
        }
    }
}
pub fn main(args: &[String]) {
    let elf = std::fs::read(&args[0]).expect("program");
    let h = |o: usize| u16::from_be_bytes([elf[o], elf[o + 1]]) as usize;
    let w = |o: usize| u32::from_be_bytes(elf[o..o + 4].try_into().unwrap());
    assert!(&elf[..6] == b"\x7fELF\x01\x02" && h(18) == 8, "not a 32-bit big-endian MIPS program");
    let mut m = Machine { r: [0; 32], hi: 0, lo: 0, mem: vec![0; MEM], out: vec![], inp: vec![], at: 0, steps: 0 };
    for k in 0..h(44) {
        let p = w(28) as usize + k * h(42);
        if w(p) == 1 {
            let (off, va, n) = (w(p + 4) as usize, w(p + 8) as usize, w(p + 16) as usize);
            m.mem[va..va + n].copy_from_slice(&elf[off..off + n]);
        }
    }
    std::io::stdin().read_to_end(&mut m.inp).unwrap();
    m.r[29] = (MEM - 64) as u32;
    let e = w(24);
    let s = m.run(e);
    m.flush();
    match s {
        Err(Stop::Exit(c)) => {
            eprintln!("instructions executed: {}", m.steps);
            std::process::exit(c)
        }
        Err(Stop::Fault(f)) => {
            println!("\nPANIC the machine stopped: {}", f);
            std::process::exit(101)
        }
        Ok(()) => unreachable!(),
    }
}
