//! A freestanding program: no standard library, no libc; its own allocator and system calls.
#![cfg_attr(target_arch = "mips", feature(asm_experimental_arch))]
#![no_std]
#![no_main]
extern crate alloc;
use alloc::vec::Vec;
use core::alloc::{GlobalAlloc, Layout};

const ARENA: usize = 192 << 20;
#[repr(align(16))]
struct Mem(core::cell::UnsafeCell<[u8; ARENA]>);
unsafe impl Sync for Mem {}
static MEM: Mem = Mem(core::cell::UnsafeCell::new([0; ARENA]));
static mut TOP: usize = 0;
static mut FLOOR: usize = 0;
struct Bump;
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = (TOP + l.align() - 1) & !(l.align() - 1);
        if p + l.size() > ARENA {
            return core::ptr::null_mut();
        }
        TOP = p + l.size();
        (MEM.0.get() as *mut u8).add(p)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let o = p as usize - MEM.0.get() as usize;
        if o + l.size() == TOP {
            TOP = o
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let o = p as usize - MEM.0.get() as usize;
        if o + l.size() == TOP && o + n <= ARENA {
            TOP = o + n;
            return p;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        }
        q
    }
}
#[global_allocator]
static G: Bump = Bump;

/// Linux on 32-bit x86
#[cfg(target_arch = "x86")]
mod platform {
    use core::arch::{asm, global_asm};
    unsafe fn sys3(n: u32, a: u32, b: u32, c: u32) -> i32 {
        let r: i32;
        // ebx is reserved by the compiler: swapped in by hand
        asm!("xchg {a:e}, ebx", "int 0x80", "xchg {a:e}, ebx", a = inout(reg) a => _, inlateout("eax") n as i32 => r, in("ecx") b, in("edx") c);
        r
    }
    pub unsafe fn sys_read(p: *mut u8, n: usize) -> i32 {
        sys3(3, 0, p as u32, n as u32)
    }
    pub unsafe fn sys_write(p: *const u8, n: usize) -> i32 {
        sys3(4, 1, p as u32, n as u32)
    }
    pub unsafe fn sys_exit(c: i32) {
        sys3(1, c as u32, 0, 0);
    }
    global_asm!(".globl _start", "_start:", "and esp, -16", "call {m}", m = sym super::start);
}
/// big-endian 32-bit MIPS without an operating system: runs in the machine simulator of the harness
#[cfg(target_arch = "mips")]
mod platform {
    use core::arch::asm;
    unsafe fn sys3(n: u32, a: u32, b: u32, c: u32) -> i32 {
        let r: u32;
        asm!("syscall", inlateout("$2") n => r, in("$4") a, in("$5") b, in("$6") c);
        r as i32
    }
    pub unsafe fn sys_read(p: *mut u8, n: usize) -> i32 {
        sys3(3, 0, p as u32, n as u32)
    }
    pub unsafe fn sys_write(p: *const u8, n: usize) -> i32 {
        sys3(4, 1, p as u32, n as u32)
    }
    pub unsafe fn sys_exit(c: i32) {
        sys3(1, c as u32, 0, 0);
    }
    #[no_mangle]
    extern "C" fn __start() -> ! {
        super::start()
    }
}
/// WebAssembly: the embedder (node) provides these
#[cfg(target_arch = "wasm32")]
mod platform {
    #[link(wasm_import_module = "env")]
    extern "C" {
        pub fn sys_read(p: *mut u8, n: usize) -> i32;
        pub fn sys_write(p: *const u8, n: usize) -> i32;
        pub fn sys_exit(c: i32);
    }
    #[no_mangle]
    extern "C" fn run() {
        super::start()
    }
}
use platform::*;
fn write(mut s: &[u8]) {
    while !s.is_empty() {
        let n = unsafe { sys_write(s.as_ptr(), s.len()) };
        if n <= 0 {
            exit(4)
        }
        s = &s[n as usize..];
    }
}
fn exit(c: i32) -> ! {
    unsafe { sys_exit(c) }
    loop {}
}
#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    write(b"\nPANIC ");
    if let Some(l) = i.location() {
        write(l.file().as_bytes());
    }
    write(b"\n");
    exit(101)
}
extern "C" fn start() -> ! {
    let mut inp: Vec<u8> = Vec::with_capacity(32 << 20);
    loop {
        if inp.len() + 65536 > inp.capacity() {
            exit(5)
        }
        let p = unsafe { inp.as_mut_ptr().add(inp.len()) };
        let n = unsafe { sys_read(p, 65536) };
        if n < 0 {
            exit(6)
        }
        if n == 0 {
            break;
        }
        unsafe { inp.set_len(inp.len() + n as usize) };
    }
    unsafe { FLOOR = TOP };
    for l in inp.split(|&b| b == b'\n') {
        if l.is_empty() {
            continue;
        }
        let s = probe::line(unsafe { core::str::from_utf8_unchecked(l) });
        write(s.as_bytes());
        write(b"\n");
        drop(s);
        unsafe { TOP = FLOOR };
    }
    write(b"END\n");
    exit(0)
}
