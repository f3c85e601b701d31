//! Single-steps library calls under a faked CPU: CPUID and XGETBV are answered from a model, and every executed
//! instruction of the program's own text is classified by the extension it needs.
use crate::report::{self, Outcome};
use harness::gen;
use harness::ops::{self, Mode, Prior, Stats};
use harness::rng::Rng;
use harness::spec::{self, Sem};
use std::arch::asm;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Class {
    Base,
    /// packed integer instructions of SSE2
    Sse2,
    Sse3,
    Ssse3,
    Sse41,
    Sse42,
    Popcnt,
    Lzcnt,
    Movbe,
    Aes,
    Pclmul,
    Sha,
    Adx,
    Sse4a,
    Avx,
    Avx2,
    Fma,
    F16c,
    Bmi,
    Avx512,
    Other,
}
const NCLASS: usize = 21;
pub const NAMES: [&str; NCLASS] = [
    "base", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "lzcnt", "movbe", "aes", "pclmulqdq", "sha", "adx", "sse4a", "avx", "avx2", "fma", "f16c", "bmi", "avx512", "other",
];
use Class::*;

/// The extension the instruction at `p` needs (at least 15 readable bytes).
pub unsafe fn classify(p: *const u8) -> Class {
    let mut i = 0;
    let (mut p66, mut rep) = (false, 0u8);
    loop {
        let b = *p.add(i);
        match b {
            0x66 => p66 = true,
            0xf2 | 0xf3 => rep = b,
            0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}
            _ => break,
        }
        i += 1;
        if i > 14 {
            return Base;
        }
    }
    if (0x40..=0x4f).contains(&*p.add(i)) {
        i += 1;
    }
    match *p.add(i) {
        0x62 => return Avx512,
        0xc5 => {
            let b1 = *p.add(i + 1);
            return vex(1, b1 & 3, b1 & 4 != 0, *p.add(i + 2), *p.add(i + 3));
        }
        0xc4 => {
            let b2 = *p.add(i + 2);
            return vex(*p.add(i + 1) & 31, b2 & 3, b2 & 4 != 0, *p.add(i + 3), *p.add(i + 4));
        }
        0x8f if *p.add(i + 1) & 0x1f >= 8 => return Other, // XOP
        0x0f => {}
        _ => return Base,
    }
    let o = *p.add(i + 1);
    match o {
        0x38 => match *p.add(i + 2) {
            0x00..=0x0b | 0x1c..=0x1e => Ssse3,
            0x10 | 0x14 | 0x15 | 0x17 | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x38..=0x41 => Sse41,
            0x37 => Sse42,
            0xc8..=0xcd => Sha,
            0xdb..=0xdf => Aes,
            0xf0 | 0xf1 if rep == 0xf2 => Sse42,
            0xf0 | 0xf1 => Movbe,
            0xf6 => Adx,
            _ => Other,
        },
        0x3a => match *p.add(i + 2) {
            0x0f => Ssse3,
            0x08..=0x0e | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 => Sse41,
            0x44 => Pclmul,
            0x60..=0x63 => Sse42,
            0xcc => Sha,
            0xdf => Aes,
            _ => Other,
        },
        0xb8 if rep == 0xf3 => Popcnt,
        0xbd if rep == 0xf3 => Lzcnt,
        0x12 if rep != 0 => Sse3,
        0x16 if rep == 0xf3 => Sse3,
        0x7c | 0x7d | 0xd0 if rep == 0xf2 || p66 => Sse3,
        0xf0 if rep == 0xf2 => Sse3,
        0x78 | 0x79 if rep == 0xf2 || p66 => Sse4a,
        0x2b if rep != 0 => Sse4a,
        0x60..=0x6d | 0x70..=0x76 | 0xd1..=0xd5 | 0xd7..=0xe5 | 0xe8..=0xef | 0xf1..=0xf6 | 0xf8..=0xfe if p66 => Sse2,
        _ => Base,
    }
}

fn vex(map: u8, pp: u8, l: bool, op: u8, modrm: u8) -> Class {
    match map {
        1 => match op {
            0x60..=0x6d | 0x70..=0x76 | 0xd1..=0xd5 | 0xd7..=0xdf | 0xe0..=0xe5 | 0xe8..=0xef | 0xf1..=0xf6 | 0xf8..=0xfe if l && pp != 0 => Avx2,
            _ => Avx,
        },
        2 => match op {
            0xf2 | 0xf3 | 0xf5 | 0xf6 | 0xf7 => Bmi,
            0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf => Fma,
            0x13 => F16c,
            0xdb..=0xdf => Aes,
            0x58 | 0x59 | 0x5a | 0x78 | 0x79 | 0x36 | 0x16 | 0x45..=0x47 | 0x8c | 0x8e | 0x90..=0x93 => Avx2,
            0x18 | 0x19 if modrm >> 6 == 3 => Avx2,
            0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x37..=0x41 if l => Avx2,
            _ => Avx,
        },
        3 => match op {
            0xf0 => Bmi,
            0x1d => F16c,
            0x44 => Pclmul,
            0x00 | 0x01 | 0x02 | 0x38 | 0x39 | 0x46 => Avx2,
            0x0e | 0x0f | 0x42 | 0x4c if l => Avx2,
            _ => Avx,
        },
        _ => Other,
    }
}

#[derive(Clone, Copy, Default)]
pub struct Cpu {
    /// bits cleared
    pub l1c: u32,
    pub l7b: u32,
    pub l7c: u32,
    pub l7d: u32,
    pub x1c: u32,
    pub xcr0: u64,
}
const SSE3: u32 = 1;
const PCLMUL: u32 = 1 << 1;
const SSSE3: u32 = 1 << 9;
const FMA: u32 = 1 << 12;
const SSE41: u32 = 1 << 19;
const SSE42: u32 = 1 << 20;
const MOVBE: u32 = 1 << 22;
const POPCNT: u32 = 1 << 23;
const AESNI: u32 = 1 << 25;
const XSAVE: u32 = 1 << 26;
const OSXSAVE: u32 = 1 << 27;
const AVX: u32 = 1 << 28;
const F16C: u32 = 1 << 29;
const RDRAND: u32 = 1 << 30;
const BMI1: u32 = 1 << 3;
const AVX2: u32 = 1 << 5;
const BMI2: u32 = 1 << 8;
const ADX: u32 = 1 << 19;
const SHA: u32 = 1 << 29;
const AVX512: u32 = 1 << 16 | 1 << 17 | 1 << 21 | 1 << 26 | 1 << 27 | 1 << 28 | 1 << 30 | 1 << 31;
const LZCNT: u32 = 1 << 5;

/// The masks, the classes the CPU does not have, and the best level of the library's implementations (0 scalar .. 4 AVX2).
pub fn cpu(name: &str) -> (Cpu, Vec<Class>, usize) {
    let from_avx = FMA | MOVBE | F16C | RDRAND;
    let from_42 = SSE42 | POPCNT | PCLMUL | AESNI | XSAVE | OSXSAVE | AVX | from_avx;
    let ext = vec![Avx512, Sse4a, Other, Sha, Adx];
    let wide = [Avx, Avx2, Fma, F16c, Bmi, Lzcnt, Movbe, Avx512, Sse4a, Other, Sha, Adx];
    let c = |l1c: u32, l7: bool, x: bool| Cpu {
        l1c,
        l7b: if l7 { !0 } else { 0 },
        l7c: if l7 { !0 } else { 0 },
        l7d: if l7 { !0 } else { 0 },
        x1c: if x { LZCNT | 1 << 6 | 1 << 11 | 1 << 16 | 1 << 21 } else { 0 },
        xcr0: !0,
    };
    let with = |w: &[Class], m: &[Class]| [w, m].concat();
    let enc = [Aes, Pclmul];
    match name {
        "sse2" => (c(SSE3 | SSSE3 | SSE41 | from_42, true, true), with(&wide, &[Sse3, Ssse3, Sse41, Sse42, Popcnt, Aes, Pclmul]), 1),
        "sse3" => (c(SSSE3 | SSE41 | from_42, true, true), with(&wide, &[Ssse3, Sse41, Sse42, Popcnt, Aes, Pclmul]), 1),
        "ssse3" => (c(SSE41 | from_42, true, true), with(&wide, &[Sse41, Sse42, Popcnt, Aes, Pclmul]), 2),
        // Bobcat and the like
        "ssse3-with-popcnt" => (c(SSE41 | (from_42 & !POPCNT), true, true), with(&wide, &[Sse41, Sse42, Aes, Pclmul]), 2),
        "sse4.1" => (c(from_42, true, true), with(&wide, &[Sse42, Popcnt, Aes, Pclmul]), 3),
        "sse4.2" => (c(PCLMUL | AESNI | XSAVE | OSXSAVE | AVX | from_avx, true, true), with(&wide, &enc), 3),
        "avx" => (c(from_avx, true, true), wide[1..].to_vec(), 3),
        // (what a build for plain AVX may use)
        "avx-only" => (Cpu::default(), with(&wide[1..], &[Popcnt, Aes, Pclmul]), 3),
        // everything reported by the processor, but the system does not save the upper halves
        "avx2-without-osxsave" => (Cpu { l1c: OSXSAVE, xcr0: 3, ..c(0, false, false) }, vec![Avx, Avx2, Fma, F16c, Avx512, Sse4a, Other], 3),
        "avx2-without-ymm-state" => (Cpu { xcr0: 3, ..c(0, false, false) }, vec![Avx, Avx2, Fma, F16c, Avx512, Sse4a, Other], 3),
        "avx2" => (Cpu { l7b: AVX512 | SHA | ADX, l7c: !0, l7d: !0, xcr0: 7, ..c(0, false, false) }, ext, 4),
        // as some hypervisors present it
        "avx2-only" => (
            Cpu { l1c: POPCNT | FMA | MOVBE | F16C | PCLMUL | AESNI | RDRAND, l7b: !AVX2, l7c: !0, l7d: !0, xcr0: 7, ..c(0, false, true) },
            with(&ext, &[Popcnt, Fma, Movbe, F16c, Pclmul, Aes, Bmi, Lzcnt]),
            4,
        ),
        _ => (Cpu { xcr0: !0, ..Default::default() }, vec![], 4),
    }
}
const _: u32 = BMI1 | BMI2;

static mut FAKE: Cpu = Cpu { l1c: 0, l7b: 0, l7c: 0, l7d: 0, x1c: 0, xcr0: !0 };
static TEXT: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
static COUNT: [AtomicU64; NCLASS] = [const { AtomicU64::new(0) }; NCLASS];
/// one address per class
static WHERE: [AtomicUsize; NCLASS] = [const { AtomicUsize::new(0) }; NCLASS];
static STEPS: AtomicU64 = AtomicU64::new(0);
static CPUIDS: AtomicU64 = AtomicU64::new(0);
/// stepping ends when this many steps were seen
static CAP: AtomicU64 = AtomicU64::new(u64::MAX);

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let g = &mut (*uc.cast::<libc::ucontext_t>()).uc_mcontext.gregs;
        if STEPS.fetch_add(1, Relaxed) >= CAP.load(Relaxed) {
            g[libc::REG_EFL as usize] &= !0x100;
            return;
        }
        loop {
            let rip = g[libc::REG_RIP as usize] as usize;
            if rip < TEXT[0].load(Relaxed) || rip >= TEXT[1].load(Relaxed) {
                return;
            }
            let p = rip as *const u8;
            match (*p, *p.add(1), *p.add(2)) {
                (0x0f, 0xa2, _) => {
                    // CPUID
                    let (a, c) = (g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32);
                    let mut r = std::arch::x86_64::__cpuid_count(a, c);
                    match a {
                        1 => r.ecx &= !FAKE.l1c,
                        7 if c == 0 => {
                            r.ebx &= !FAKE.l7b;
                            r.ecx &= !FAKE.l7c;
                            r.edx &= !FAKE.l7d;
                        }
                        7 if FAKE.l7b != 0 => r = std::arch::x86_64::CpuidResult { eax: 0, ebx: 0, ecx: 0, edx: 0 },
                        0x8000_0001 => r.ecx &= !FAKE.x1c,
                        _ => {}
                    }
                    g[libc::REG_RAX as usize] = r.eax as i64;
                    g[libc::REG_RBX as usize] = r.ebx as i64;
                    g[libc::REG_RCX as usize] = r.ecx as i64;
                    g[libc::REG_RDX as usize] = r.edx as i64;
                    g[libc::REG_RIP as usize] = rip as i64 + 2;
                    CPUIDS.fetch_add(1, Relaxed);
                    continue;
                }
                (0x0f, 0x01, 0xd0) => {
                    // XGETBV
                    let (lo, hi): (u32, u32);
                    asm!("xgetbv", in("ecx") g[libc::REG_RCX as usize] as u32, out("eax") lo, out("edx") hi);
                    let v = ((hi as u64) << 32 | lo as u64) & FAKE.xcr0;
                    g[libc::REG_RAX as usize] = (v & 0xffff_ffff) as i64;
                    g[libc::REG_RDX as usize] = (v >> 32) as i64;
                    g[libc::REG_RIP as usize] = rip as i64 + 3;
                    continue;
                }
                _ => {}
            }
            let k = classify(p) as usize;
            COUNT[k].fetch_add(1, Relaxed);
            WHERE[k].store(rip, Relaxed);
            return;
        }
    }
}

fn text_range() -> (usize, usize) {
    unsafe extern "C" fn cb(i: *mut libc::dl_phdr_info, _: usize, d: *mut libc::c_void) -> i32 {
        // the first object is the program itself
        let out = &mut *d.cast::<(usize, usize)>();
        for k in 0..(*i).dlpi_phnum as usize {
            let h = &*(*i).dlpi_phdr.add(k);
            if h.p_type == libc::PT_LOAD && h.p_flags & libc::PF_X != 0 {
                let a = (*i).dlpi_addr as usize + h.p_vaddr as usize;
                *out = (if out.0 == 0 { a } else { out.0.min(a) }, out.1.max(a + h.p_memsz as usize));
            }
        }
        1
    }
    let mut r = (0usize, 0usize);
    unsafe { libc::dl_iterate_phdr(Some(cb), (&mut r as *mut (usize, usize)).cast()) };
    r
}

#[inline(never)]
fn stepped<T>(f: impl FnOnce() -> T) -> T {
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = f();
    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    r
}

/// Levels (1 SSE2, 2 SSSE3, 3 SSE4.1, 4 AVX2) for which the library has an implementation of the operation.
fn levels(s: Sem) -> &'static [usize] {
    use Sem::*;
    match s {
        HexChk | IsAscii | FromAscii => &[1, 4],
        HexEncL | HexEncU | HexDec => &[1, 2, 4],
        B64Enc(_) | B64Dec(_) | B64Chk(_) | Forg => &[2, 4],
        B32Chk(_) => &[2, 4],
        B32Enc(_) | B32Dec(_) => &[3, 4],
        IsUtf32 => &[3, 4],
        Swap16 | Swap32 => &[2, 4],
        UuidParseS | UuidFmtSL | UuidFmtSU => &[1, 2, 4],
        UuidParseH | UuidFmtHL | UuidFmtHU => &[3, 4],
        UuidParse | B64Len(_) | B32Len(_) => &[],
    }
}

fn source(sem: Sem, n: usize, rng: &mut Rng) -> Vec<u8> {
    let d = rng.bytes(n);
    match sem {
        Sem::UuidFmtSL | Sem::UuidFmtSU | Sem::UuidFmtHL | Sem::UuidFmtHU => rng.bytes(16),
        Sem::UuidParse | Sem::UuidParseH => spec::uuid_fmt(&rng.bytes(16), false, true),
        Sem::UuidParseS => spec::uuid_fmt(&rng.bytes(16), true, false),
        Sem::IsAscii | Sem::FromAscii => d.iter().map(|x| x & 127).collect(),
        Sem::IsUtf32 => d[..n / 4 * 4].chunks(4).flat_map(|c| [c[0], c[1] & 0x7f, 0, 0]).collect(),
        Sem::Swap16 | Sem::Swap32 => d[..n / 4 * 4].to_vec(),
        Sem::HexEncL | Sem::HexEncU | Sem::B64Enc(_) | Sem::B32Enc(_) => d,
        _ => gen::code(sem).valid(&d, rng),
    }
}

/// Where the program's text is; the trap handler.
fn install() -> Option<usize> {
    let (lo, hi) = text_range();
    if lo == 0 {
        return None;
    }
    TEXT[0].store(lo, Relaxed);
    TEXT[1].store(hi, Relaxed);
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    Some(lo)
}

/// The number of instructions `f` executes, counted up to `cap`. None where single-stepping does not work.
pub fn count(cap: u64, f: impl FnOnce()) -> Option<u64> {
    static READY: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    if !READY.get_or_init(|| {
        let ok = install().is_some();
        STEPS.store(0, Relaxed);
        stepped(|| std::hint::black_box((0..100).map(std::hint::black_box).sum::<usize>()));
        ok && STEPS.load(Relaxed) > 100
    }) {
        return None;
    }
    STEPS.store(0, Relaxed);
    CAP.store(cap, Relaxed);
    stepped(f);
    CAP.store(u64::MAX, Relaxed);
    Some(STEPS.load(Relaxed))
}

pub fn run(name: &str, level: Option<usize>, seed: u64, reps: usize) -> Outcome {
    let (fake, missing, mut best) = cpu(name);
    let mut st = Stats::default();
    let mut rng = Rng::new(seed);
    let Some(lo) = install() else {
        return Outcome::Unclear("cannot find the program's text".into());
    };
    unsafe { FAKE = fake };
    if let Some(l) = level {
        best = l;
    }
    let mut work: Vec<(Sem, Mode)> = vec![];
    for sem in ops::all_sems() {
        for &m in ops::modes(sem) {
            work.push((sem, m));
        }
    }
    rng.shuffle(&mut work);
    let mut per_level = [[0u64; NCLASS]; 1];
    let mut accelerated = 0u64;
    let mut worst = (f64::MAX, String::new());
    // short inputs, then long ones
    for rep in 0..reps {
        for &(sem, mode) in &work {
            let lv = levels(sem).iter().copied().filter(|&l| l <= best).last();
            if rep == 1 && (lv.is_none() || matches!(mode, Mode::TypeVec | Mode::TypeBox | Mode::TypeString | Mode::TypeBoxStr | Mode::AppString)) {
                continue;
            }
            let n = match rep {
                0 => rng.range(150, 230),
                1 => rng.range(1000, 1300),
                _ => *rng.pick(&[0usize, 5, 17, 33, 64, 100, 160, 230]),
            };
            let mut s = source(sem, n, &mut rng);
            if rep > 1 && !s.is_empty() && rng.one_in(3) {
                let k = rng.below(s.len());
                s[k] = rng.u64() as u8;
            }
            let e = spec::expect(sem, &s);
            let m = if mode.has_dst() { ops::fixed_dst(sem).unwrap_or(spec::need(sem, &s, &e)) } else { 0 };
            // 4-byte aligned
            let mut src = vec![0u32; s.len() / 4 + 1];
            let mut dst = vec![0u32; m / 4 + 1];
            let (sp, dp) = (src.as_mut_ptr().cast::<u8>(), dst.as_mut_ptr().cast::<u8>());
            unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), sp, s.len()) };
            ops::note(sem, mode, &s, dp, m);
            let before: [u64; NCLASS] = std::array::from_fn(|k| COUNT[k].load(Relaxed));
            let prior = Prior::default();
            let len = s.len();
            let r = stepped(|| unsafe { ops::run(sem, mode, sp, len, dp, m, &prior) });
            let got: [u64; NCLASS] = std::array::from_fn(|k| COUNT[k].load(Relaxed) - before[k]);
            drop(r);
            st.calls += 1;
            st.inputs += 1;
            st.ok += 1;
            st.seen.insert(ops::hash(ops::sem_index_fast(sem), &s));
            for k in 0..NCLASS {
                per_level[0][k] += got[k];
            }
            let body = |what: String| {
                Outcome::Fail(format!(
                    "\"what\":{},\"op\":\"{sem:?}/{mode:?}\",\"cpu\":{},\"src_len\":{},\"src\":{},\"instructions\":{}",
                    report::esc(&what),
                    report::esc(name),
                    s.len(),
                    report::esc(&report::hex(&s)),
                    report::esc(&show(&got))
                ))
            };
            for &c in &missing {
                if got[c as usize] > 0 {
                    let at = WHERE[c as usize].load(Relaxed);
                    let bytes = unsafe { report::hex(std::slice::from_raw_parts(at as *const u8, 10)) };
                    return body(format!("{} {} instruction(s) executed on a CPU that reports none (one at text+{:#x}: {bytes})", got[c as usize], NAMES[c as usize], at - lo));
                }
            }
            // acceleration, on long valid inputs only
            if rep <= 1 {
                if let Some(l) = lv {
                    let vec = |c: &[Class]| c.iter().map(|&c| got[c as usize]).sum::<u64>();
                    let v = match l {
                        4 => vec(&[Avx, Avx2]),
                        // (a build with AVX encodes them as such)
                        2 | 3 if level.is_some() => vec(&[Ssse3, Sse41, Avx]),
                        2 | 3 => vec(&[Ssse3, Sse41]),
                        _ if level.is_some() => vec(&[Sse2, Ssse3, Sse41, Avx, Avx2]),
                        _ => vec(&[Sse2, Ssse3, Sse41]),
                    };
                    let floor = (s.len() as u64 / if rep == 0 { 64 } else { 48 }).max(1);
                    let ratio = v as f64 / floor as f64;
                    if ratio < worst.0 {
                        worst = (ratio, format!("{sem:?}/{mode:?}: {v} vector instructions for {} bytes", s.len()));
                    }
                    if v < floor {
                        return body(format!(
                            "no acceleration: {v} instructions of level {} for {} bytes, although the CPU reports it and the operation has an implementation for it",
                            ["scalar", "SSE2", "SSSE3", "SSE4.1", "AVX2"][l],
                            s.len()
                        ));
                    }
                    accelerated += 1;
                }
            }
            if level.is_some() && CPUIDS.load(Relaxed) > 0 {
                return body("the processor was asked for its features, although the build decides at compile time".into());
            }
        }
    }
    // large inputs: how their calls begin
    const BEGINNING: u64 = 20_000;
    if reps > 3 {
        for &(sem, mode) in &work {
            if ops::fixed_dst(sem).is_some() && mode.has_dst() || !(ops::modes(sem)[0] == mode || mode.inplace() || rng.one_in(6)) {
                continue;
            }
            let n = if ops::modes(sem)[0] == mode { 9 << 20 } else { *rng.pick(&[1usize << 16, 1 << 18, 1 << 20, 9 << 20]) } + rng.below(40_000);
            let s = source(sem, n, &mut rng);
            if s.len() < 4096 {
                continue;
            }
            let m = match sem {
                _ if !mode.has_dst() => 0,
                Sem::Swap16 | Sem::Swap32 => s.len(),
                _ => spec::need(sem, &s, &spec::expect(sem, &s)),
            };
            let mut src = vec![0u32; s.len() / 4 + 1];
            let mut dst = vec![0u32; m / 4 + 1];
            let (sp, dp) = (src.as_mut_ptr().cast::<u8>(), dst.as_mut_ptr().cast::<u8>());
            unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), sp, s.len()) };
            ops::note(sem, mode, &s[..s.len().min(64)], dp, m);
            let before: [u64; NCLASS] = std::array::from_fn(|k| COUNT[k].load(Relaxed));
            let prior = Prior::default();
            let len = s.len();
            CAP.store(STEPS.load(Relaxed) + BEGINNING, Relaxed);
            drop(stepped(|| unsafe { ops::run(sem, mode, sp, len, dp, m, &prior) }));
            CAP.store(u64::MAX, Relaxed);
            st.calls += 1;
            st.inputs += 1;
            st.ok += 1;
            st.seen.insert(ops::hash(ops::sem_index_fast(sem), &s[..4096]));
            let got: [u64; NCLASS] = std::array::from_fn(|k| COUNT[k].load(Relaxed) - before[k]);
            for k in 0..NCLASS {
                per_level[0][k] += got[k];
            }
            let body = |what: String| Outcome::Fail(format!("\"what\":{},\"op\":\"{sem:?}/{mode:?}\",\"cpu\":{},\"src_len\":{len}", report::esc(&what), report::esc(name)));
            for &c in &missing {
                if got[c as usize] > 0 {
                    let at = WHERE[c as usize].load(Relaxed);
                    let bytes = unsafe { report::hex(std::slice::from_raw_parts(at as *const u8, 10)) };
                    return body(format!("{} {} instruction(s) executed on a CPU that reports none (one at text+{:#x}: {bytes})", got[c as usize], NAMES[c as usize], at - lo));
                }
            }
            if level.is_some() && CPUIDS.load(Relaxed) > 0 {
                return body("the processor was asked for its features, although the build decides at compile time".into());
            }
        }
    }
    // the run-time choice for a caller's closure
    for _ in 0..reps {
        let a: [u32; 64] = std::array::from_fn(|_| rng.u64() as u32);
        let before: [u64; NCLASS] = std::array::from_fn(|k| COUNT[k].load(Relaxed));
        let r = stepped(|| {
            vsimd::native::Native::detect().exec(|| {
                let mut b = [0u32; 64];
                for k in 0..64 {
                    b[k] = a[k].wrapping_mul(0x9e37_79b9).rotate_left(7) ^ a[63 - k];
                }
                b
            })
        });
        std::hint::black_box(r);
        st.calls += 1;
        for &c in &missing {
            let n = COUNT[c as usize].load(Relaxed) - before[c as usize];
            per_level[0][c as usize] += n;
            if n > 0 {
                let at = WHERE[c as usize].load(Relaxed);
                let bytes = unsafe { report::hex(std::slice::from_raw_parts(at as *const u8, 10)) };
                return Outcome::Fail(format!(
                    "\"what\":{},\"op\":\"Native::exec\",\"cpu\":{}",
                    report::esc(&format!("{n} {} instruction(s) executed on a CPU that reports none (one at text+{:#x}: {bytes})", NAMES[c as usize], at - lo)),
                    report::esc(name)
                ));
            }
        }
    }
    let steps = STEPS.load(Relaxed);
    if steps < 1000 {
        return Outcome::Unclear("single-stepping does not work here".into());
    }
    // did detection see the faked CPU?
    if level.is_none() {
        let seen = stepped(|| {
            [
                std::is_x86_feature_detected!("ssse3"),
                std::is_x86_feature_detected!("sse4.1"),
                std::is_x86_feature_detected!("avx2"),
            ]
        });
        let want = [best >= 2, best >= 3, best >= 4];
        if CPUIDS.load(Relaxed) == 0 || seen != want {
            return Outcome::Unclear(format!("the standard library's detection saw {seen:?}, the model says {want:?} (CPUID executed {} times)", CPUIDS.load(Relaxed)));
        }
    }
    st.samples.push(format!("{name}: {}; least accelerated {}", show(&per_level[0]), worst.1));
    Outcome::Ok(format!(
        "{},\"steps\":{steps},\"cpuid\":{},\"accelerated_calls\":{accelerated},\"executed\":{}",
        report::stats(&st),
        CPUIDS.load(Relaxed),
        report::esc(&show(&per_level[0]))
    ))
}

fn show(c: &[u64; NCLASS]) -> String {
    (0..NCLASS).filter(|&k| c[k] > 0).map(|k| format!("{}={}", NAMES[k], c[k])).collect::<Vec<_>>().join(" ")
}
