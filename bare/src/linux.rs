//! A static 32-bit Linux program without a C library: reads its options from the command line, prints one JSON line.
#![cfg_attr(target_arch = "x86", no_std, no_main)]
#![allow(static_mut_refs)]

#[cfg(not(target_arch = "x86"))]
fn main() {}

#[cfg(target_arch = "x86")]
extern crate alloc;
#[cfg(target_arch = "x86")]
mod run;

#[cfg(target_arch = "x86")]
mod imp {
    use crate::run;
    use core::arch::{asm, global_asm};

    global_asm!(
        ".globl _start",
        "_start:",
        "mov eax, esp",
        "and esp, -16",
        "sub esp, 12",
        "push eax",
        "call {main}",
        main = sym entry,
    );

    unsafe fn sys(n: u32, a: u32, b: u32, c: u32) -> i32 {
        let r;
        asm!("push ebx", "mov ebx, {b}", "int 0x80", "pop ebx", b = in(reg) a, inlateout("eax") n as i32 => r, in("ecx") b, in("edx") c);
        r
    }
    fn out(s: &str) {
        let mut s = s.as_bytes();
        while !s.is_empty() {
            let k = unsafe { sys(4, 1, s.as_ptr() as u32, s.len() as u32) };
            if k <= 0 {
                break;
            }
            s = &s[k as usize..];
        }
    }
    /// Whether `f` panics: it is called in a process of its own.
    pub fn catch(f: &mut dyn FnMut()) -> bool {
        unsafe {
            let pid = sys(2, 0, 0, 0);
            if pid == 0 {
                CHILD = true;
                f();
                exit(0);
            }
            if pid < 0 {
                out("\n{\"status\":\"error\",\"why\":\"cannot fork\"}\n");
                exit(1);
            }
            let mut status = 0u32;
            while sys(7, pid as u32, &mut status as *mut u32 as u32, 0) == -4 {}
            status == 77 << 8
        }
    }
    static mut CHILD: bool = false;

    /// The old interface of mmap: a block of six words.
    unsafe fn mmap(at: usize, len: usize, prot: u32, flags: u32, fd: i32) -> Option<usize> {
        let args: [u32; 6] = [at as u32, len as u32, prot, flags, fd as u32, 0];
        let r = sys(90, args.as_ptr() as u32, 0, 0) as u32 as usize;
        (r <= 0xffff_f000).then_some(r)
    }

    /// `blocks` times the same memory, holding `content`, then `tail` in memory of its own and an unmapped page.
    pub unsafe fn periodic(content: &[u8], blocks: usize, tail: &[u8]) -> Option<(*mut u8, usize)> {
        let n = content.len();
        let fd = sys(356, b"block\0".as_ptr() as u32, 0, 0);
        if fd < 0 || sys(93, fd as u32, n as u32, 0) != 0 {
            return None;
        }
        let total = (blocks + 1) * n + 4096;
        let p = mmap(0, total, 0, 0x4022, -1)?;
        let first = mmap(0, n, 3, 1, fd)?;
        core::ptr::copy_nonoverlapping(content.as_ptr(), first as *mut u8, n);
        sys(91, first as u32, n as u32, 0);
        for k in 0..blocks {
            mmap(p + k * n, n, 1, 0x11, fd)?;
        }
        mmap(p + blocks * n, n, 3, 0x32, -1)?;
        sys(6, fd as u32, 0, 0);
        core::ptr::copy_nonoverlapping(tail.as_ptr(), (p + blocks * n) as *mut u8, tail.len());
        Some((p as *mut u8, total))
    }
    /// Zeroed memory between two unmapped pages.
    pub unsafe fn plain(n: usize) -> Option<(*mut u8, usize)> {
        let n = (n + 4095) & !4095;
        let p = mmap(0, n + 8192, 0, 0x4022, -1)?;
        mmap(p + 4096, n, 3, 0x4032, -1)?;
        Some((p as *mut u8, n + 8192))
    }
    pub unsafe fn unmap(p: *mut u8, n: usize) {
        sys(91, p as u32, n as u32, 0);
    }

    fn exit(c: u32) -> ! {
        loop {
            unsafe { sys(1, c, 0, 0) };
        }
    }

    #[global_allocator]
    static G: run::Pool = run::Pool;
    static mut TOP: usize = 0;
    static mut END: usize = 0;
    /// A fresh block of `n` bytes, aligned to `min(n, 4096)`.
    pub unsafe fn more(n: usize) -> *mut u8 {
        let a = n.min(4096);
        let mut p = (TOP + a - 1) & !(a - 1);
        if TOP == 0 || p + n > END {
            let len = n.max(1 << 20);
            let Some(r) = mmap(0, len, 3, 0x22, -1) else { return core::ptr::null_mut() };
            (TOP, END, p) = (r, r + len, r);
        }
        TOP = p + n;
        p as *mut u8
    }

    #[panic_handler]
    fn panic(i: &core::panic::PanicInfo) -> ! {
        if unsafe { CHILD } {
            exit(77)
        }
        out("\n");
        out(&run::panicked(i));
        out("\n");
        exit(1)
    }

    unsafe extern "C" fn entry(sp: *const u32) -> ! {
        let n = *sp as usize;
        let mut line = alloc::string::String::new();
        for k in 1..n {
            let mut p = *sp.add(1 + k) as *const u8;
            while *p != 0 {
                line.push(*p as char);
                p = p.add(1);
            }
            line.push(' ');
        }
        let r = run::run(&line);
        out("\n");
        out(&r);
        out("\n");
        exit(if r.contains("\"status\":\"ok\"") { 0 } else { 1 })
    }
}
#[cfg(target_arch = "x86")]
use imp::more;
#[cfg(target_arch = "x86")]
mod big;
