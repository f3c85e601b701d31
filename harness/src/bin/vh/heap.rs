//! A global allocator that can watch every allocation: layouts, double frees, leaks, writes outside a block, and
//! injected failures. Off until switched on; what was allocated before stays outside its books.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

const SLOTS: usize = 1 << 16;
const RED: usize = 32;
const QUARANTINE: usize = 256;

#[derive(Clone, Copy)]
struct Slot {
    /// 0 empty, 1 deleted
    ptr: usize,
    size: usize,
    align: usize,
    freed: bool,
}

struct Books {
    t: [Slot; SLOTS],
    q: [(usize, usize, usize); QUARANTINE],
    qn: usize,
}

pub struct Watch {
    b: UnsafeCell<Books>,
}
unsafe impl Sync for Watch {}

pub static ON: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
/// largest LIVE_BYTES since it was last set
pub static PEAK: AtomicI64 = AtomicI64::new(0);
/// sum of all requests
pub static REQUESTED: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FREES: AtomicU64 = AtomicU64::new(0);
/// fail the allocation with this index (counting from the moment it is set)
pub static FAIL_AT: AtomicI64 = AtomicI64::new(-1);
/// first offence: 1 wrong layout, 2 double free, 3 not allocated, 4 write outside the block, 5 zero-size request
pub static OFFENCE: AtomicU64 = AtomicU64::new(0);
pub static OFF_A: AtomicU64 = AtomicU64::new(0);
pub static OFF_B: AtomicU64 = AtomicU64::new(0);

fn offend(code: u64, a: usize, b: usize) {
    if OFFENCE.compare_exchange(0, code, Relaxed, Relaxed).is_ok() {
        OFF_A.store(a as u64, Relaxed);
        OFF_B.store(b as u64, Relaxed);
    }
}

impl Watch {
    pub const fn new() -> Self {
        const E: Slot = Slot {
            ptr: 0,
            size: 0,
            align: 0,
            freed: false,
        };
        Watch {
            b: UnsafeCell::new(Books {
                t: [E; SLOTS],
                q: [(0, 0, 0); QUARANTINE],
                qn: 0,
            }),
        }
    }
    /// Monitored processes are single-threaded.
    #[allow(clippy::mut_from_ref)]
    unsafe fn books(&self) -> &mut Books {
        &mut *self.b.get()
    }
    unsafe fn find(&self, p: usize) -> Option<&mut Slot> {
        let t = &mut self.books().t;
        let mut i = p.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48;
        for _ in 0..SLOTS {
            i &= SLOTS - 1;
            if t[i].ptr == p {
                return Some(&mut t[i]);
            }
            if t[i].ptr == 0 {
                return None;
            }
            i += 1;
        }
        None
    }
    unsafe fn insert(&self, p: usize, size: usize, align: usize) {
        let t = &mut self.books().t;
        let mut i = p.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48;
        for _ in 0..SLOTS {
            i &= SLOTS - 1;
            if t[i].ptr <= 1 {
                t[i] = Slot {
                    ptr: p,
                    size,
                    align,
                    freed: false,
                };
                return;
            }
            i += 1;
        }
        libc::abort();
    }
    /// Forgets everything that is not live.
    pub unsafe fn compact(&self) {
        let b = self.books();
        for k in 0..QUARANTINE {
            let (p, size, align) = b.q[k];
            if p != 0 {
                raw_free(p, size, align);
                b.q[k] = (0, 0, 0);
            }
        }
        b.qn = 0;
        let live: Vec<Slot> = {
            let on = ON.swap(false, Relaxed);
            let v = b.t.iter().filter(|s| s.ptr > 1 && !s.freed).copied().collect();
            ON.store(on, Relaxed);
            v
        };
        for s in b.t.iter_mut() {
            s.ptr = 0;
        }
        for s in &live {
            self.insert(s.ptr, s.size, s.align);
        }
        let on = ON.swap(false, Relaxed);
        drop(live);
        ON.store(on, Relaxed);
    }
}

fn pad(align: usize) -> usize {
    RED.max(align)
}
unsafe fn raw_free(p: usize, size: usize, align: usize) {
    let pre = pad(align);
    System.dealloc((p - pre) as *mut u8, Layout::from_size_align_unchecked(size + pre + RED, align));
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) {
            return System.alloc(l);
        }
        if l.size() == 0 {
            offend(5, 0, 0);
        }
        let n = ALLOCS.fetch_add(1, Relaxed);
        if FAIL_AT.load(Relaxed) == n as i64 {
            return std::ptr::null_mut();
        }
        let pre = pad(l.align());
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + pre + RED, l.align()));
        if p.is_null() {
            return p;
        }
        // recognisable garbage inside, red zones around
        std::ptr::write_bytes(p, 0x5E, pre);
        std::ptr::write_bytes(p.add(pre), 0xDB, l.size());
        std::ptr::write_bytes(p.add(pre + l.size()), 0x5E, RED);
        let u = p.add(pre);
        self.insert(u as usize, l.size(), l.align());
        LIVE.fetch_add(1, Relaxed);
        REQUESTED.fetch_add(l.size() as u64, Relaxed);
        PEAK.fetch_max(LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64, Relaxed);
        u
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !ON.load(Relaxed) {
            return match self.find(p as usize) {
                Some(s) => {
                    let (size, align) = (s.size, s.align);
                    s.ptr = 1;
                    LIVE.fetch_sub(1, Relaxed);
                    LIVE_BYTES.fetch_sub(size as i64, Relaxed);
                    raw_free(p as usize, size, align)
                }
                None => System.dealloc(p, l),
            };
        }
        FREES.fetch_add(1, Relaxed);
        match self.find(p as usize) {
            None => {
                // from before the monitor was on, or never allocated: the harness frees nothing old while it is on
                offend(3, p as usize, l.size());
            }
            Some(s) => {
                if s.freed {
                    offend(2, l.size(), s.size);
                    return;
                }
                if s.size != l.size() || s.align != l.align() {
                    offend(1, l.size(), s.size);
                }
                let (size, align) = (s.size, s.align);
                let pre = pad(align);
                let a = std::slice::from_raw_parts(p.sub(pre), pre);
                let b = std::slice::from_raw_parts(p.add(size), RED);
                if a.iter().chain(b).any(|&x| x != 0x5E) {
                    offend(4, size, 0);
                }
                s.freed = true;
                LIVE.fetch_sub(1, Relaxed);
                LIVE_BYTES.fetch_sub(size as i64, Relaxed);
                std::ptr::write_bytes(p, 0xDE, size);
                let b = self.books();
                let k = b.qn % QUARANTINE;
                let old = b.q[k];
                b.q[k] = (p as usize, size, align);
                b.qn += 1;
                if old.0 != 0 {
                    if let Some(s) = self.find(old.0) {
                        s.ptr = 1;
                    }
                    raw_free(old.0, old.1, old.2);
                }
            }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !ON.load(Relaxed) && self.find(p as usize).is_none() {
            return System.realloc(p, l, new);
        }
        // always move, so that stale pointers show
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

pub fn offence() -> Option<String> {
    let (a, b) = (OFF_A.load(Relaxed), OFF_B.load(Relaxed));
    Some(match OFFENCE.load(Relaxed) {
        0 => return None,
        1 => format!("block of {b} bytes freed with a layout of {a} bytes (or another alignment)"),
        2 => format!("block of {b} bytes freed twice"),
        3 => format!("freed a block of {b} bytes that is not allocated"),
        4 => format!("bytes around a block of {a} bytes were overwritten"),
        _ => "zero-size allocation requested".into(),
    })
}
