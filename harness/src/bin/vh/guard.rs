//! Memory with unmapped pages on both sides, and crash reporting.
use harness::ops::{self, Mem};
use harness::rng::Rng;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

const PAGE: usize = 4096;

struct Region {
    base: *mut u8,
    len: usize,
    /// placed buffer, and whether it ends at the upper guard page
    at: (usize, usize),
}

impl Region {
    fn new(len: usize) -> Region {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                len + 2 * PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let base = p.cast::<u8>().add(PAGE);
            assert_eq!(libc::mprotect(base.cast(), len, libc::PROT_READ | libc::PROT_WRITE), 0);
            Region { base, len, at: (0, 0) }
        }
    }
    fn place(&mut self, len: usize, high: bool, canary: u8) -> *mut u8 {
        assert!(len <= self.len, "guard region too small for {len}");
        let off = if high { self.len - len } else { 0 };
        self.at = (off, len);
        unsafe {
            let (lo, hi) = self.margins();
            std::slice::from_raw_parts_mut(self.base.add(lo.0), lo.1).fill(canary);
            std::slice::from_raw_parts_mut(self.base.add(hi.0), hi.1).fill(canary);
            self.base.add(off)
        }
    }
    fn margins(&self) -> ((usize, usize), (usize, usize)) {
        let (off, len) = self.at;
        let lo = off.min(128);
        let hi = (self.len - off - len).min(128);
        ((off - lo, lo), (off + len, hi))
    }
    fn intact(&self, canary: u8) -> bool {
        let (lo, hi) = self.margins();
        unsafe {
            std::slice::from_raw_parts(self.base.add(lo.0), lo.1).iter().all(|&b| b == canary)
                && std::slice::from_raw_parts(self.base.add(hi.0), hi.1).iter().all(|&b| b == canary)
        }
    }
    fn protect(&self, prot: libc::c_int) {
        unsafe {
            assert_eq!(libc::mprotect(self.base.cast(), self.len, prot), 0);
        }
    }
}

pub struct Guarded {
    a: Region,
    b: Region,
    used_b: bool,
    /// make the source read-only during calls that must not write it
    pub readonly: bool,
    ro_now: bool,
    pub counts: [u64; 4],
}

impl Guarded {
    pub fn new() -> Self {
        Guarded {
            a: Region::new(1 << 22),
            b: Region::new(1 << 22),
            used_b: false,
            readonly: false,
            ro_now: false,
            counts: [0; 4],
        }
    }
}

impl Mem for Guarded {
    fn src(&mut self, data: &[u8], _elem: usize, rng: &mut Rng) -> *mut u8 {
        if self.ro_now {
            self.a.protect(libc::PROT_READ | libc::PROT_WRITE);
            self.ro_now = false;
        }
        let high = rng.below(4) != 0;
        self.counts[high as usize] += 1;
        let p = self.a.place(data.len(), high, 0xC3);
        unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len()) };
        p
    }
    fn dst(&mut self, len: usize, _elem: usize, rng: &mut Rng) -> *mut u8 {
        let high = rng.below(4) != 0;
        self.counts[2 + high as usize] += 1;
        self.used_b = true;
        if self.readonly {
            // a call with a destination never writes its source
            self.a.protect(libc::PROT_READ);
            self.ro_now = true;
        }
        self.b.place(len, high, 0xA5)
    }
    fn check(&mut self) -> Result<(), &'static str> {
        if self.ro_now {
            self.a.protect(libc::PROT_READ | libc::PROT_WRITE);
            self.ro_now = false;
        }
        if !self.a.intact(0xC3) {
            return Err("memory next to the source buffer was modified");
        }
        if self.used_b && !self.b.intact(0xA5) {
            return Err("memory next to the destination was modified");
        }
        Ok(())
    }
}

struct Buf {
    b: [u8; 8192],
    n: usize,
}
impl Buf {
    fn s(&mut self, s: &[u8]) {
        for &c in s {
            if self.n < self.b.len() {
                self.b[self.n] = c;
                self.n += 1;
            }
        }
    }
    fn d(&mut self, mut v: usize) {
        let mut t = [0u8; 20];
        let mut i = t.len();
        loop {
            i -= 1;
            t[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        self.s(&t[i..]);
    }
    fn x(&mut self, v: usize) {
        for k in (0..16).rev() {
            self.s(&[b"0123456789abcdef"[v >> (k * 4) & 15]]);
        }
    }
}

pub static STAGE: AtomicUsize = AtomicUsize::new(0);

static LAST: AtomicUsize = AtomicUsize::new(0);
static TICKS: AtomicUsize = AtomicUsize::new(0);
/// Ticks of 2 s of CPU time one call may take; the slowest call of any suite takes a few milliseconds.
const MAX_TICKS: usize = 15;

static ASLEEP: AtomicUsize = AtomicUsize::new(0);
static LAST_ASLEEP: AtomicUsize = AtomicUsize::new(0);
static CPU: AtomicUsize = AtomicUsize::new(0);

/// A call that is under way for 15 ticks of 2 s of real time, none of which any thread of the process used for more
/// than half a millisecond: it waits for something that will not come. (A process that only lacks a processor uses
/// each one it gets.)
unsafe fn blocked() -> bool {
    let mut ts: libc::timespec = std::mem::zeroed();
    libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
    let cpu = ts.tv_sec as usize * 1_000_000 + ts.tv_nsec as usize / 1000;
    let used = cpu - CPU.swap(cpu, Relaxed);
    let now = ops::CALLS.load(Relaxed);
    if LAST_ASLEEP.swap(now, Relaxed) != now || now == 0 || STAGE.load(Relaxed) != 0 || used > 500 {
        ASLEEP.store(0, Relaxed);
        return false;
    }
    ASLEEP.fetch_add(1, Relaxed) + 1 >= MAX_TICKS
}

extern "C" fn on_signal(sig: libc::c_int, info: *mut libc::siginfo_t, _ctx: *mut libc::c_void) {
    unsafe {
        if sig == libc::SIGVTALRM {
            let now = ops::CALLS.load(Relaxed);
            if LAST.swap(now, Relaxed) != now || now == 0 || STAGE.load(Relaxed) != 0 {
                TICKS.store(0, Relaxed);
                return;
            }
            if TICKS.fetch_add(1, Relaxed) + 1 < MAX_TICKS {
                return;
            }
        }
        if sig == libc::SIGALRM && !blocked() {
            return;
        }
        let mut o = Buf { b: [0; 8192], n: 0 };
        o.s(if sig == libc::SIGVTALRM || sig == libc::SIGALRM { b"\n{\"status\":\"hangs\",\"signal\":" } else { b"\n{\"status\":\"crash\",\"signal\":" });
        o.d(sig as usize);
        o.s(b",\"addr\":\"0x");
        o.x((*info).si_addr() as usize);
        o.s(b"\",\"dst\":\"0x");
        o.x(ops::CUR_DST.load(Relaxed));
        o.s(b"\",\"dst_len\":");
        o.d(ops::CUR_DLEN.load(Relaxed));
        o.s(b",\"sem\":");
        o.d(ops::CUR_SEM.load(Relaxed));
        o.s(b",\"mode\":");
        o.d(ops::CUR_MODE.load(Relaxed));
        o.s(b",\"what\":\"");
        let w = ops::CUR_WHAT.load(Relaxed);
        if !w.is_null() {
            o.s((*w).as_bytes());
        }
        o.s(b"\",\"src_len\":");
        let n = ops::CUR_LEN.load(Relaxed);
        o.d(n);
        o.s(b",\"src\":\"");
        let p = ops::CUR_SRC.load(Relaxed) as *const u8;
        if !p.is_null() && STAGE.load(Relaxed) == 0 {
            for i in 0..n.min(3000) {
                let c = *p.add(i);
                o.s(&[b"0123456789abcdef"[(c >> 4) as usize], b"0123456789abcdef"[(c & 15) as usize]]);
            }
        }
        o.s(b"\"}\n");
        libc::write(1, o.b.as_ptr().cast(), o.n);
        libc::_exit(77);
    }
}

pub fn install() {
    unsafe {
        let sz = 1 << 17;
        let st = libc::mmap(
            std::ptr::null_mut(),
            sz,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        let ss = libc::stack_t {
            ss_sp: st,
            ss_flags: 0,
            ss_size: sz,
        };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        for sig in [libc::SIGVTALRM, libc::SIGALRM, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGTRAP] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER | libc::SA_RESTART;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
        let tv = libc::timeval { tv_sec: 2, tv_usec: 0 };
        let it = libc::itimerval {
            it_interval: tv,
            it_value: tv,
        };
        libc::setitimer(libc::ITIMER_VIRTUAL, &it, std::ptr::null_mut());
        libc::setitimer(libc::ITIMER_REAL, &it, std::ptr::null_mut());
    }
}
