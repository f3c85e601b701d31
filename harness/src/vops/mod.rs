//! Vector primitives (V01) and the blocks built from them (V02), each against a scalar definition written from its
//! name and documentation, on every instruction set that can run here and that implements it.
mod blocks;
mod prims;

use crate::gen::{Scale, R};
use crate::ops::{Fail, Stats};
use crate::rng::Rng;
use alloc::format;
use alloc::string::String;
use alloc::vec::Vec;
use vsimd::vector::{V128, V256, V64};

pub const MAX: usize = 160;

/// Operands: three registers' worth of bytes.
#[derive(Clone, Copy)]
pub struct In {
    pub a: [u8; 32],
    pub b: [u8; 32],
    pub c: [u8; 32],
}
impl In {
    pub fn h(x: &[u8; 32]) -> V128 {
        V128::from_bytes(x[..16].try_into().unwrap())
    }
    pub fn a128(&self) -> V128 {
        Self::h(&self.a)
    }
    pub fn b128(&self) -> V128 {
        Self::h(&self.b)
    }
    pub fn c128(&self) -> V128 {
        Self::h(&self.c)
    }
    pub fn a256(&self) -> V256 {
        V256::from_bytes(self.a)
    }
    pub fn b256(&self) -> V256 {
        V256::from_bytes(self.b)
    }
    pub fn c256(&self) -> V256 {
        V256::from_bytes(self.c)
    }
}

pub struct Out {
    pub buf: [u8; MAX],
    pub n: usize,
}
impl Out {
    pub fn new() -> Self {
        Out { buf: [0; MAX], n: 0 }
    }
    pub fn put(&mut self, b: &[u8]) {
        self.buf[self.n..self.n + b.len()].copy_from_slice(b);
        self.n += b.len();
    }
    pub fn bytes(&self) -> &[u8] {
        &self.buf[..self.n]
    }
    pub fn v(&mut self, x: impl Reg) {
        x.show(self)
    }
}

/// What an operation can return.
pub trait Reg {
    fn show(&self, o: &mut Out);
}
impl Reg for V64 {
    fn show(&self, o: &mut Out) {
        o.put(self.as_bytes())
    }
}
impl Reg for V128 {
    fn show(&self, o: &mut Out) {
        o.put(self.as_bytes())
    }
}
impl Reg for V256 {
    fn show(&self, o: &mut Out) {
        o.put(self.as_bytes())
    }
}
impl<A: Reg, B: Reg> Reg for (A, B) {
    fn show(&self, o: &mut Out) {
        self.0.show(o);
        self.1.show(o);
    }
}
impl Reg for bool {
    fn show(&self, o: &mut Out) {
        o.put(&[*self as u8])
    }
}
impl Reg for u8 {
    fn show(&self, o: &mut Out) {
        o.put(&[*self])
    }
}
impl Reg for u16 {
    fn show(&self, o: &mut Out) {
        o.put(&self.to_le_bytes())
    }
}
impl Reg for u32 {
    fn show(&self, o: &mut Out) {
        o.put(&self.to_le_bytes())
    }
}

pub trait Lane: Copy {
    const N: usize;
    fn get(b: &[u8]) -> Self;
    fn set(self, b: &mut [u8]);
}
macro_rules! lane {
    ($($t:ty),*) => {$(
        impl Lane for $t {
            const N: usize = core::mem::size_of::<$t>();
            fn get(b: &[u8]) -> Self { <$t>::from_ne_bytes(b.try_into().unwrap()) }
            fn set(self, b: &mut [u8]) { b.copy_from_slice(&self.to_ne_bytes()) }
        }
    )*};
}
lane!(u8, u16, u32, u64, i8, i16, i32, i64);

/// Lane-wise definitions on registers of `w` bytes.
pub fn map1<T: Lane>(w: usize, i: &In, o: &mut Out, f: impl Fn(T) -> T) {
    for k in (0..w).step_by(T::N) {
        f(T::get(&i.a[k..k + T::N])).set(&mut o.buf[o.n + k..o.n + k + T::N]);
    }
    o.n += w;
}
pub fn map2<T: Lane>(w: usize, i: &In, o: &mut Out, f: impl Fn(T, T) -> T) {
    for k in (0..w).step_by(T::N) {
        f(T::get(&i.a[k..k + T::N]), T::get(&i.b[k..k + T::N])).set(&mut o.buf[o.n + k..o.n + k + T::N]);
    }
    o.n += w;
}
pub fn map3(w: usize, i: &In, o: &mut Out, f: impl Fn(u8, u8, u8) -> u8) {
    for k in 0..w {
        let r = f(i.a[k], i.b[k], i.c[k]);
        o.put(&[r]);
    }
}

/// Instruction sets, as bits.
pub const SSE2: u8 = 1;
pub const SSSE3: u8 = 2;
pub const SSE41: u8 = 4;
pub const AVX2: u8 = 8;
pub const WASM: u8 = 16;
/// ARM: 64-bit and 32-bit
pub const A64: u8 = 32;
pub const A32: u8 = 64;
pub const ARM: u8 = A64 | A32;
pub const ALL: u8 = 127;
/// all but ARM, which has no bit masks of bytes
pub const BITS: u8 = 31;
/// SSSE3 and what contains it, WebAssembly and ARM
pub const S3: u8 = ALL ^ SSE2;
pub const S41: u8 = S3 ^ SSSE3;
/// x86 only
pub const X: u8 = 15;
pub const X3: u8 = 14;
pub const X41: u8 = 12;

#[derive(Clone, Copy, PartialEq)]
pub enum Gen {
    Any,
    /// lanes of 0x00 and 0xff
    Mask,
    /// bytes below 16
    Nibbles,
    /// mostly symbols of an alphabet
    Text(&'static [u8]),
}

pub struct Op {
    pub name: &'static str,
    pub gen: Gen,
    pub run: unsafe fn(&In, &mut Out),
    pub model: fn(&In, &mut Out),
}

/// `op!([feature Isa bit] list, which, name, gen, |s, i, o| call, model)`: one operation compiled for one instruction set.
#[macro_export]
#[doc(hidden)]
macro_rules! vop {
    ([$feat:tt $isa:ident $bit:expr] $v:ident, $need:expr, $name:expr, $gen:expr, |$s:ident, $i:ident, $o:ident| $body:expr, $model:expr) => {{
        #[target_feature(enable = $feat)]
        unsafe fn run($i: &$crate::vops::In, $o: &mut $crate::vops::Out) {
            #[allow(unused_variables)]
            let $s = <vsimd::isa::$isa as vsimd::isa::InstructionSet>::new();
            $body
        }
        if $need & $bit != 0 {
            $v.push($crate::vops::Op { name: $name, gen: $gen, run, model: $model });
        }
    }};
}

fn available() -> Vec<(&'static str, u8)> {
    #[allow(unused_mut)]
    let mut v = Vec::new();
    #[cfg(target_arch = "x86_64")]
    {
        #[cfg(any(feature = "bins", feature = "mi"))]
        macro_rules! has {
            ($f:tt) => {
                std::arch::is_x86_feature_detected!($f)
            };
        }
        #[cfg(not(any(feature = "bins", feature = "mi")))]
        macro_rules! has {
            ($f:tt) => {
                cfg!(target_feature = $f)
            };
        }
        if has!("sse2") {
            v.push(("SSE2", SSE2));
        }
        if has!("ssse3") {
            v.push(("SSSE3", SSSE3));
        }
        if has!("sse4.1") {
            v.push(("SSE4.1", SSE41));
        }
        if has!("avx2") {
            v.push(("AVX2", AVX2));
        }
    }
    #[cfg(target_arch = "x86")]
    {
        for (n, b, h) in [("SSE2", SSE2, cfg!(target_feature = "sse2")), ("SSSE3", SSSE3, cfg!(target_feature = "ssse3")), ("SSE4.1", SSE41, cfg!(target_feature = "sse4.1")), ("AVX2", AVX2, cfg!(target_feature = "avx2"))] {
            if h {
                v.push((n, b));
            }
        }
    }
    #[cfg(target_arch = "wasm32")]
    if cfg!(target_feature = "simd128") {
        v.push(("WASM128", WASM));
    }
    if cfg!(target_arch = "aarch64") {
        v.push(("NEON", A64));
    }
    #[cfg(all(target_arch = "arm", feature = "unstable"))]
    if cfg!(target_feature = "neon") {
        v.push(("NEON", A32));
    }
    v
}

fn ops(part: &str, isa: u8) -> Vec<Op> {
    let mut v = Vec::new();
    if part != "V02" {
        prims::ops(isa, &mut v);
    }
    if part != "V01" {
        blocks::ops(isa, &mut v);
    }
    v
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|c| format!("{c:02x}")).collect()
}

struct Run<'a> {
    isa: &'static str,
    op: &'a Op,
    calls: u64,
}
impl Run<'_> {
    fn one(&mut self, i: &In) -> R {
        let (mut got, mut want) = (Out::new(), Out::new());
        unsafe { (self.op.run)(i, &mut got) };
        (self.op.model)(i, &mut want);
        self.calls += 1;
        if got.bytes() == want.bytes() {
            return Ok(());
        }
        Err(Fail {
            what: format!("{} on {}: a={} b={} c={}", self.op.name, self.isa, hexs(&i.a), hexs(&i.b), hexs(&i.c)),
            sem: None,
            src: Vec::new(),
            dst_len: 0,
            expected: hexs(want.bytes()),
            got: hexs(got.bytes()),
        })
    }
}

/// Values at which lane arithmetic changes its behaviour.
fn edge(rng: &mut Rng, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let h = 1u64 << (bits - 1);
    let c = [0, m, h, h - 1, 1u64 << rng.below(bits as usize), m ^ 1u64 << rng.below(bits as usize), rng.u64(), rng.u64() >> rng.below(64)];
    let d = [0u64, 1, u64::MAX, 2, u64::MAX - 1];
    rng.pick(&c).wrapping_add(*rng.pick(&d)) & m
}
fn fill_edges(rng: &mut Rng, x: &mut [u8; 32]) {
    let n = [1usize, 2, 4, 8][rng.below(4)];
    for k in (0..32).step_by(n) {
        let v = edge(rng, 8 * n as u32).to_le_bytes();
        x[k..k + n].copy_from_slice(&v[..n]);
    }
}
fn fill_any(rng: &mut Rng, x: &mut [u8; 32]) {
    match rng.below(6) {
        0 => rng.fill(x),
        1 | 2 => fill_edges(rng, x),
        3 => {
            *x = [if rng.one_in(2) { 0 } else { rng.u8() }; 32];
            x[rng.below(32)] = rng.u8();
        }
        4 => {
            for c in x.iter_mut() {
                *c = rng.u8() & 0x8f;
            }
        }
        _ => {
            for (k, c) in x.iter_mut().enumerate() {
                *c = (k as u8).wrapping_mul(7).wrapping_add(rng.below(2) as u8);
            }
        }
    }
}
fn fill_mask(rng: &mut Rng, x: &mut [u8; 32]) {
    match rng.below(4) {
        0 => *x = [0; 32],
        1 => *x = [0xff; 32],
        _ => x.iter_mut().for_each(|c| *c = 0u8.wrapping_sub(rng.below(2) as u8)),
    }
    if rng.one_in(2) {
        let k = rng.below(32);
        x[k] = !x[k];
    }
}

fn drive(r: &mut Run, sc: Scale, rng: &mut Rng) -> R {
    let n = sc.by(30usize, 400, 3000, 60000);
    let zero = In { a: [0; 32], b: [0; 32], c: [0; 32] };
    match r.op.gen {
        Gen::Any => {
            // every pair of byte values meets in every lane
            let step = sc.by(61usize, 7, 1, 1);
            let (p, q, z) = (rng.u8() | 1, rng.u8() | 1, rng.u8());
            for v in (0..65536usize).step_by(step) {
                let mut i = zero;
                for k in 0..32 {
                    i.a[k] = (v as u8).wrapping_add(p.wrapping_mul(k as u8));
                    i.b[k] = ((v >> 8) as u8).wrapping_add(q.wrapping_mul(k as u8));
                    i.c[k] = z.wrapping_mul(k as u8).wrapping_add(v as u8);
                }
                r.one(&i)?;
                // every 16-bit value in every lane
                for k in 0..16 {
                    let x = (v as u16).wrapping_add(0x1357u16.wrapping_mul(k as u16)).to_le_bytes();
                    i.a[2 * k..2 * k + 2].copy_from_slice(&x);
                }
                fill_edges(rng, &mut i.b);
                r.one(&i)?;
            }
            for _ in 0..n * 3 {
                let mut i = zero;
                fill_any(rng, &mut i.a);
                fill_any(rng, &mut i.b);
                fill_any(rng, &mut i.c);
                match rng.below(6) {
                    0 => i.b = i.a,
                    1 => {
                        i.b = i.a;
                        i.b[rng.below(32)] ^= 1 << rng.below(8);
                    }
                    2 => {
                        // lanes that differ only in one byte of theirs
                        i.b = i.a;
                        for c in i.b.iter_mut() {
                            if rng.one_in(4) {
                                *c = c.wrapping_add([1, 255, 128][rng.below(3)]);
                            }
                        }
                    }
                    _ => {}
                }
                r.one(&i)?;
            }
            // all zero but one bit, all ones but one bit
            for bit in 0..256 {
                let mut i = zero;
                i.a[bit / 8] = 1 << (bit % 8);
                r.one(&i)?;
                i.a = [0xff; 32];
                i.a[bit / 8] ^= 1 << (bit % 8);
                i.b = [0xff; 32];
                r.one(&i)?;
            }
        }
        Gen::Mask => {
            for _ in 0..n * 4 {
                let mut i = zero;
                fill_mask(rng, &mut i.a);
                fill_any(rng, &mut i.b);
                fill_any(rng, &mut i.c);
                r.one(&i)?;
            }
            for k in 0..32 {
                for x in [0u8, 0xff] {
                    let mut i = zero;
                    i.a = [x; 32];
                    i.a[k] = !x;
                    r.one(&i)?;
                }
            }
        }
        Gen::Nibbles => {
            for v in 0..n * 4 {
                let mut i = zero;
                for k in 0..32 {
                    i.a[k] = rng.u8() & 15;
                    i.b[k] = ((v >> (4 * (k % 2))) & 15) as u8;
                    i.c[k] = rng.u8();
                }
                if v % 2 == 0 {
                    i.a = i.b;
                }
                r.one(&i)?;
            }
        }
        Gen::Text(alpha) => {
            let text = |rng: &mut Rng| {
                let mut t = [0; 32];
                t.iter_mut().for_each(|c| *c = *rng.pick(alpha));
                t
            };
            // every byte value in every lane among good neighbours
            for k in 0..32 {
                for v in 0..=255u8 {
                    let mut i = In { a: text(rng), b: text(rng), c: zero.c };
                    i.a[k] = v;
                    r.one(&i)?;
                    let mut i = In { a: text(rng), b: text(rng), c: zero.c };
                    i.b[k] = v;
                    r.one(&i)?;
                }
            }
            // every pair of neighbours, at varying places: shifts across lanes must not matter
            let step = sc.by(61usize, 7, 1, 1);
            let s0 = rng.below(32);
            for v in (0..65536usize).step_by(step) {
                let mut i = In { a: text(rng), b: text(rng), c: zero.c };
                let k = (v * 5 + s0) % 31;
                i.a[k] = v as u8;
                i.a[k + 1] = (v >> 8) as u8;
                r.one(&i)?;
            }
            for _ in 0..n {
                let mut i = In { a: text(rng), b: text(rng), c: zero.c };
                for _ in 0..rng.below(4) {
                    i.a[rng.below(32)] = rng.u8();
                    i.b[rng.below(32)] = *rng.pick(alpha) ^ (1 << rng.below(8));
                }
                r.one(&i)?;
                fill_any(rng, &mut i.a);
                r.one(&i)?;
            }
        }
    }
    Ok(())
}

pub fn run(sc: Scale, seed: u64, part: &str, st: &mut Stats) -> R {
    let mut most = 0;
    // "V01" or "V01@AVX2"
    let (part, on) = part.split_once('@').unwrap_or((part, ""));
    for (name, bit) in available() {
        if !on.is_empty() && on != name {
            continue;
        }
        let list = ops(part, bit);
        let mut here = 0;
        for (k, op) in list.iter().enumerate() {
            let mut rng = Rng::new(seed ^ ((k as u64) << 20));
            let mut r = Run { isa: name, op, calls: 0 };
            let e = drive(&mut r, sc, &mut rng);
            here += r.calls;
            st.calls += r.calls;
            st.ok += r.calls;
            e?;
        }
        st.inputs += list.len() as u64;
        most = most.max(here);
        if st.samples.len() < 8 {
            st.samples.push(format!("{name}: {} operations, {here} evaluations, e.g. {} and {}", list.len(), list[0].name, list[list.len() / 2].name));
        }
    }
    // the operands are the same ones on every instruction set
    st.seen.add(most as usize);
    Ok(())
}
