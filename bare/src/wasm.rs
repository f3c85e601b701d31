//! The same for a WebAssembly engine: `run(ptr, len)` on a buffer obtained from `buf(len)`; the verdict is at `out()`.
//! For ARM it is linked into the program of `neon/host.c`, which calls the same functions.
#![cfg_attr(any(target_arch = "wasm32", target_arch = "aarch64", target_arch = "arm"), no_std)]
#![allow(static_mut_refs)]

#[cfg(any(target_arch = "wasm32", target_arch = "aarch64", target_arch = "arm"))]
extern crate alloc;
#[cfg(any(target_arch = "wasm32", target_arch = "aarch64", target_arch = "arm"))]
mod run;
#[cfg(any(target_arch = "wasm32", target_arch = "aarch64", target_arch = "arm"))]
pub use imp::*;

#[cfg(any(target_arch = "wasm32", target_arch = "aarch64", target_arch = "arm"))]
mod imp {
    use super::run as common;
    use alloc::string::String;
    use alloc::vec::Vec;

    #[global_allocator]
    static G: common::Pool = common::Pool;
    static mut TOP: usize = 0;
    static mut END: usize = 0;
    pub unsafe fn more(n: usize) -> *mut u8 {
        let a = n.min(4096);
        let mut p = (TOP + a - 1) & !(a - 1);
        if TOP == 0 || p + n > END {
            let pages = n.max(1 << 20).div_ceil(65536);
            p = grow(pages);
            if p == 0 {
                return core::ptr::null_mut();
            }
            END = p + pages * 65536;
        }
        TOP = p + n;
        p as *mut u8
    }

    #[cfg(target_arch = "wasm32")]
    unsafe fn grow(pages: usize) -> usize {
        let at = core::arch::wasm32::memory_grow(0, pages);
        if at == usize::MAX {
            return 0;
        }
        at * 65536
    }
    #[cfg(not(target_arch = "wasm32"))]
    unsafe fn grow(pages: usize) -> usize {
        host_grow(pages)
    }
    #[cfg(not(target_arch = "wasm32"))]
    extern "C" {
        fn host_grow(pages: usize) -> usize;
        fn host_trap() -> !;
    }

    static mut LINE: Vec<u8> = Vec::new();
    static mut OUT: String = String::new();

    #[no_mangle]
    pub unsafe extern "C" fn buf(n: usize) -> *mut u8 {
        LINE = alloc::vec![0; n];
        LINE.as_mut_ptr()
    }
    #[no_mangle]
    pub unsafe extern "C" fn run() {
        let s = core::str::from_utf8(&LINE).unwrap();
        OUT = common::run(s);
    }
    #[no_mangle]
    pub unsafe extern "C" fn out() -> *const u8 {
        OUT.as_ptr()
    }
    #[no_mangle]
    pub unsafe extern "C" fn out_len() -> usize {
        OUT.len()
    }
    #[panic_handler]
    fn panic(i: &core::panic::PanicInfo) -> ! {
        unsafe { OUT = common::panicked(i) };
        #[cfg(target_arch = "wasm32")]
        core::arch::wasm32::unreachable();
        #[cfg(not(target_arch = "wasm32"))]
        unsafe {
            host_trap()
        }
    }
}
