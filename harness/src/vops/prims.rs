use super::*;
use crate::vop;
use vsimd::{Scalable, SIMD128, SIMD256};

/// (a, b) -> c, lane by lane, in both widths
macro_rules! bin {
    ($cx:tt $v:ident, $need:expr, $n:ident / $w:ident, $t:ty, $f:expr) => {
        vop!($cx $v, $need, stringify!($n), Gen::Any, |s, i, o| o.v(s.$n(i.a128(), i.b128())), |i, o| map2::<$t>(16, i, o, $f));
        vop!($cx $v, $need, stringify!($w), Gen::Any, |s, i, o| o.v(s.$w(i.a256(), i.b256())), |i, o| map2::<$t>(32, i, o, $f));
    };
}
/// the width-generic form, also in both widths
macro_rules! sbin {
    ($cx:tt $v:ident, $need:expr, $n:ident, $t:ty, $f:expr) => {
        vop!($cx $v, $need, concat!("Scalable<V128>::", stringify!($n)), Gen::Any, |s, i, o| o.v(Scalable::<V128>::$n(s, i.a128(), i.b128())), |i, o| map2::<$t>(16, i, o, $f));
        vop!($cx $v, $need, concat!("Scalable<V256>::", stringify!($n)), Gen::Any, |s, i, o| o.v(Scalable::<V256>::$n(s, i.a256(), i.b256())), |i, o| map2::<$t>(32, i, o, $f));
    };
}
macro_rules! un {
    ($cx:tt $v:ident, $need:expr, $n:ident / $w:ident, $t:ty, $f:expr) => {
        vop!($cx $v, $need, stringify!($n), Gen::Any, |s, i, o| o.v(s.$n(i.a128())), |i, o| map1::<$t>(16, i, o, $f));
        vop!($cx $v, $need, stringify!($w), Gen::Any, |s, i, o| o.v(s.$w(i.a256())), |i, o| map1::<$t>(32, i, o, $f));
    };
}
macro_rules! sun {
    ($cx:tt $v:ident, $need:expr, $n:ident, $t:ty, $f:expr) => {
        vop!($cx $v, $need, concat!("Scalable<V128>::", stringify!($n)), Gen::Any, |s, i, o| o.v(Scalable::<V128>::$n(s, i.a128())), |i, o| map1::<$t>(16, i, o, $f));
        vop!($cx $v, $need, concat!("Scalable<V256>::", stringify!($n)), Gen::Any, |s, i, o| o.v(Scalable::<V256>::$n(s, i.a256())), |i, o| map1::<$t>(32, i, o, $f));
    };
}
/// anything else: two registers in, a model over the operands and the width
macro_rules! gen2 {
    ($cx:tt $v:ident, $need:expr, $n:ident / $w:ident, $model:expr) => {
        vop!($cx $v, $need, stringify!($n), Gen::Any, |s, i, o| o.v(s.$n(i.a128(), i.b128())), |i, o| $model(16, i, o));
        vop!($cx $v, $need, stringify!($w), Gen::Any, |s, i, o| o.v(s.$w(i.a256(), i.b256())), |i, o| $model(32, i, o));
    };
}
macro_rules! gen1 {
    ($cx:tt $v:ident, $need:expr, $gen:expr, $n:ident / $w:ident, $model:expr) => {
        vop!($cx $v, $need, stringify!($n), $gen, |s, i, o| o.v(s.$n(i.a128())), |i, o| $model(16, i, o));
        vop!($cx $v, $need, stringify!($w), $gen, |s, i, o| o.v(s.$w(i.a256())), |i, o| $model(32, i, o));
    };
}
macro_rules! sgen1 {
    ($cx:tt $v:ident, $need:expr, $gen:expr, $n:ident, $model:expr) => {
        vop!($cx $v, $need, concat!("Scalable<V128>::", stringify!($n)), $gen, |s, i, o| o.v(Scalable::<V128>::$n(s, i.a128())), |i, o| $model(16, i, o));
        vop!($cx $v, $need, concat!("Scalable<V256>::", stringify!($n)), $gen, |s, i, o| o.v(Scalable::<V256>::$n(s, i.a256())), |i, o| $model(32, i, o));
    };
}
macro_rules! splat {
    ($cx:tt $v:ident, $n:ident / $w:ident, $t:ty) => {
        vop!($cx $v, ALL, stringify!($n), Gen::Any, |s, i, o| o.v(s.$n(<$t as Lane>::get(&i.a[..<$t as Lane>::N]))), |i, o| splatted(16, <$t as Lane>::N, i, o));
        vop!($cx $v, ALL, stringify!($w), Gen::Any, |s, i, o| o.v(s.$w(<$t as Lane>::get(&i.a[..<$t as Lane>::N]))), |i, o| splatted(32, <$t as Lane>::N, i, o));
    };
}
macro_rules! ssplat {
    ($cx:tt $v:ident, $n:ident, $t:ty) => {
        vop!($cx $v, ALL, concat!("Scalable<V128>::", stringify!($n)), Gen::Any, |s, i, o| o.v(Scalable::<V128>::$n(s, <$t as Lane>::get(&i.a[..<$t as Lane>::N]))), |i, o| splatted(16, <$t as Lane>::N, i, o));
        vop!($cx $v, ALL, concat!("Scalable<V256>::", stringify!($n)), Gen::Any, |s, i, o| o.v(Scalable::<V256>::$n(s, <$t as Lane>::get(&i.a[..<$t as Lane>::N]))), |i, o| splatted(32, <$t as Lane>::N, i, o));
    };
}
macro_rules! shifts16 {
    ($cx:tt $v:ident, $($k:literal)*) => {$(
        vop!($cx $v, ALL, concat!("u16x8_shl::<", $k, ">"), Gen::Any, |s, i, o| o.v(s.u16x8_shl::<$k>(i.a128())), |i, o| map1::<u16>(16, i, o, |x| x << $k));
        vop!($cx $v, ALL, concat!("u16x8_shr::<", $k, ">"), Gen::Any, |s, i, o| o.v(s.u16x8_shr::<$k>(i.a128())), |i, o| map1::<u16>(16, i, o, |x| x >> $k));
        vop!($cx $v, ALL, concat!("u16x16_shl::<", $k, ">"), Gen::Any, |s, i, o| o.v(s.u16x16_shl::<$k>(i.a256())), |i, o| map1::<u16>(32, i, o, |x| x << $k));
        vop!($cx $v, ALL, concat!("u16x16_shr::<", $k, ">"), Gen::Any, |s, i, o| o.v(s.u16x16_shr::<$k>(i.a256())), |i, o| map1::<u16>(32, i, o, |x| x >> $k));
    )*};
}
macro_rules! shifts32 {
    ($cx:tt $v:ident, $($k:literal)*) => {$(
        vop!($cx $v, ALL, concat!("u32x4_shl::<", $k, ">"), Gen::Any, |s, i, o| o.v(s.u32x4_shl::<$k>(i.a128())), |i, o| map1::<u32>(16, i, o, |x| x << $k));
        vop!($cx $v, ALL, concat!("u32x4_shr::<", $k, ">"), Gen::Any, |s, i, o| o.v(s.u32x4_shr::<$k>(i.a128())), |i, o| map1::<u32>(16, i, o, |x| x >> $k));
        vop!($cx $v, ALL, concat!("u32x8_shl::<", $k, ">"), Gen::Any, |s, i, o| o.v(s.u32x8_shl::<$k>(i.a256())), |i, o| map1::<u32>(32, i, o, |x| x << $k));
        vop!($cx $v, ALL, concat!("u32x8_shr::<", $k, ">"), Gen::Any, |s, i, o| o.v(s.u32x8_shr::<$k>(i.a256())), |i, o| map1::<u32>(32, i, o, |x| x >> $k));
    )*};
}
macro_rules! sshifts {
    ($cx:tt $v:ident, $($k:literal)*) => {$(
        vop!($cx $v, ALL, concat!("Scalable<V128>::u16xn_shl::<", $k, ">"), Gen::Any, |s, i, o| o.v(Scalable::<V128>::u16xn_shl::<$k>(s, i.a128())), |i, o| map1::<u16>(16, i, o, |x| x << $k));
        vop!($cx $v, ALL, concat!("Scalable<V128>::u16xn_shr::<", $k, ">"), Gen::Any, |s, i, o| o.v(Scalable::<V128>::u16xn_shr::<$k>(s, i.a128())), |i, o| map1::<u16>(16, i, o, |x| x >> $k));
        vop!($cx $v, ALL, concat!("Scalable<V128>::u32xn_shr::<", $k, ">"), Gen::Any, |s, i, o| o.v(Scalable::<V128>::u32xn_shr::<$k>(s, i.a128())), |i, o| map1::<u32>(16, i, o, |x| x >> $k));
        vop!($cx $v, ALL, concat!("Scalable<V256>::u16xn_shl::<", $k, ">"), Gen::Any, |s, i, o| o.v(Scalable::<V256>::u16xn_shl::<$k>(s, i.a256())), |i, o| map1::<u16>(32, i, o, |x| x << $k));
        vop!($cx $v, ALL, concat!("Scalable<V256>::u16xn_shr::<", $k, ">"), Gen::Any, |s, i, o| o.v(Scalable::<V256>::u16xn_shr::<$k>(s, i.a256())), |i, o| map1::<u16>(32, i, o, |x| x >> $k));
        vop!($cx $v, ALL, concat!("Scalable<V256>::u32xn_shr::<", $k, ">"), Gen::Any, |s, i, o| o.v(Scalable::<V256>::u32xn_shr::<$k>(s, i.a256())), |i, o| map1::<u32>(32, i, o, |x| x >> $k));
    )*};
}
/// immediates that select lanes
macro_rules! imm {
    ($cx:tt $v:ident, $($k:literal)*) => {$(
        vop!($cx $v, X41, concat!("u16x8_blend::<", $k, ">"), Gen::Mask, |s, i, o| o.v(s.u16x8_blend::<$k>(i.b128(), i.c128())), |i, o| blend(16, 2, $k, i, o));
        vop!($cx $v, AVX2, concat!("u32x8_blend::<", $k, ">"), Gen::Mask, |s, i, o| o.v(s.u32x8_blend::<$k>(i.b256(), i.c256())), |i, o| blend(32, 4, $k, i, o));
        vop!($cx $v, AVX2, concat!("u64x4_permute::<", $k, ">"), Gen::Mask, |s, i, o| o.v(s.u64x4_permute::<$k>(i.b256())), |i, o| permute64($k, i, o));
    )*};
}

fn splatted(w: usize, n: usize, i: &In, o: &mut Out) {
    for _ in 0..w / n {
        o.put(&i.a[..n]);
    }
}
fn blend(w: usize, n: usize, imm: u32, i: &In, o: &mut Out) {
    for k in 0..w / n {
        let x = if imm >> (k % 8) & 1 == 1 { &i.c } else { &i.b };
        o.put(&x[k * n..k * n + n]);
    }
}
fn permute64(imm: u32, i: &In, o: &mut Out) {
    for k in 0..4 {
        let j = (imm >> (2 * k) & 3) as usize;
        o.put(&i.b[j * 8..j * 8 + 8]);
    }
}
/// interleaving of the lower (upper) halves of every 16-byte part
fn zip(w: usize, n: usize, hi: bool, i: &In, o: &mut Out) {
    for base in (0..w).step_by(16) {
        let from = base + if hi { 8 } else { 0 };
        for k in (from..from + 8).step_by(n) {
            o.put(&i.a[k..k + n]);
            o.put(&i.b[k..k + n]);
        }
    }
}
/// the even (odd) lanes of the concatenation of a and b
fn unzip(w: usize, n: usize, odd: bool, i: &In, o: &mut Out) {
    for x in [&i.a, &i.b] {
        let mut k = if odd { n } else { 0 };
        while k < w {
            o.put(&x[k..k + n]);
            k += 2 * n;
        }
    }
}
fn swizzle(w: usize, i: &In, o: &mut Out) {
    for k in 0..w {
        let x = i.b[k];
        // an index with the high bit set selects zero; WebAssembly and ARM also treat 16..=127 that way
        let out = x >= 0x80 || cfg!(any(target_arch = "wasm32", target_arch = "aarch64", target_arch = "arm")) && x >= 16;
        o.put(&[if out { 0 } else { i.a[k / 16 * 16 + (x & 15) as usize] }]);
    }
}
/// one table of 32 bytes; an index beyond it selects zero
fn swizzle32(drop: u8, i: &In, o: &mut Out) {
    for k in 0..32 {
        let x = (i.b[k] & !drop) as usize;
        o.put(&[if x < 32 { i.a[x] } else { 0 }]);
    }
}
fn bswap(w: usize, n: usize, i: &In, o: &mut Out) {
    for k in 0..w {
        o.put(&[i.a[k / n * n + n - 1 - k % n]]);
    }
}
fn all_zero(w: usize, i: &In, o: &mut Out) {
    o.v(i.a[..w].iter().all(|c| *c == 0))
}
fn any_zero(w: usize, i: &In, o: &mut Out) {
    o.v(i.a[..w].iter().any(|c| *c == 0))
}
fn highbits(w: usize, i: &In) -> u32 {
    (0..w).fold(0, |m, k| m | ((i.a[k] >> 7) as u32) << k)
}
fn highbit_all(w: usize, i: &In, o: &mut Out) {
    o.v(i.a[..w].iter().all(|c| *c >= 0x80))
}
fn highbit_any(w: usize, i: &In, o: &mut Out) {
    o.v(i.a[..w].iter().any(|c| *c >= 0x80))
}
fn mask_all(w: usize, i: &In, o: &mut Out) {
    o.v(i.a[..w].iter().all(|c| *c == 0xff))
}
fn mask_any(w: usize, i: &In, o: &mut Out) {
    o.v(i.a[..w].contains(&0xff))
}
fn i16at(x: &[u8; 32], k: usize) -> i32 {
    i16::from_le_bytes([x[2 * k], x[2 * k + 1]]) as i32
}
/// unsigned bytes of a times signed bytes of b, pairs added with saturation
fn maddubs(w: usize, i: &In, o: &mut Out) {
    for k in (0..w).step_by(2) {
        let p = i.a[k] as i32 * (i.b[k] as i8) as i32 + i.a[k + 1] as i32 * (i.b[k + 1] as i8) as i32;
        o.put(&(p.clamp(-32768, 32767) as i16).to_le_bytes());
    }
}
fn madd(w: usize, i: &In, o: &mut Out) {
    for k in (0..w / 2).step_by(2) {
        let p = (i16at(&i.a, k) * i16at(&i.b, k)).wrapping_add(i16at(&i.a, k + 1) * i16at(&i.b, k + 1));
        o.put(&p.to_le_bytes());
    }
}
fn mask(b: bool, ones: u64) -> u64 {
    if b {
        ones
    } else {
        0
    }
}
fn widen(i: &In, o: &mut Out) {
    for k in 0..16 {
        o.put(&[i.a[k], 0]);
    }
}
fn packus(i: &In, o: &mut Out) {
    for x in [&i.a, &i.b] {
        for k in 0..8 {
            o.put(&[i16at(x, k).clamp(0, 255) as u8]);
        }
    }
}

#[repr(C, align(64))]
struct Mem([u8; 128]);
fn memory(i: &In) -> Mem {
    let mut m = Mem([0; 128]);
    for k in 0..128 {
        m.0[k] = i.b[k % 32] ^ (k as u8).wrapping_mul(29);
    }
    m
}
fn place(i: &In, w: usize, align: usize) -> usize {
    (i.c[0] as usize % (128 - w)) / align * align
}
macro_rules! memory {
    ($cx:tt $v:ident, $w:literal, $reg:ident, $load:ident, $store:ident, $align:literal) => {
        vop!($cx $v, ALL, stringify!($load), Gen::Any, |s, i, o| { let m = memory(i); o.v(s.$load(m.0.as_ptr().add(place(i, $w, $align)))) }, |i, o| { let m = memory(i); let p = place(i, $w, $align); o.put(&m.0[p..p + $w]) });
        vop!($cx $v, ALL, stringify!($store), Gen::Any, |s, i, o| { let mut m = memory(i); s.$store(m.0.as_mut_ptr().add(place(i, $w, $align)), i.$reg()); o.put(&m.0) }, |i, o| { let mut m = memory(i); let p = place(i, $w, $align); m.0[p..p + $w].copy_from_slice(&i.a[..$w]); o.put(&m.0) });
    };
}

macro_rules! all {
    ($cx:tt $v:ident) => {
        memory!($cx $v, 16, a128, v128_load, v128_store, 16);
        memory!($cx $v, 16, a128, v128_load_unaligned, v128_store_unaligned, 1);
        memory!($cx $v, 32, a256, v256_load, v256_store, 32);
        memory!($cx $v, 32, a256, v256_load_unaligned, v256_store_unaligned, 1);
        vop!($cx $v, ALL, "v128_create_zero", Gen::Mask, |s, i, o| { let _ = i; o.v(s.v128_create_zero()) }, |_, o| o.put(&[0; 16]));
        vop!($cx $v, ALL, "v256_create_zero", Gen::Mask, |s, i, o| { let _ = i; o.v(s.v256_create_zero()) }, |_, o| o.put(&[0; 32]));
        un!($cx $v, ALL, v128_not / v256_not, u8, |a| !a);
        bin!($cx $v, ALL, v128_and / v256_and, u8, |a, b| a & b);
        bin!($cx $v, ALL, v128_or / v256_or, u8, |a, b| a | b);
        bin!($cx $v, ALL, v128_xor / v256_xor, u8, |a, b| a ^ b);
        bin!($cx $v, ALL, v128_andnot / v256_andnot, u8, |a, b| a & !b);
        gen1!($cx $v, S41, Gen::Any, v128_all_zero / v256_all_zero, all_zero);
        splat!($cx $v, u8x16_splat / u8x32_splat, u8);
        splat!($cx $v, u16x8_splat / u16x16_splat, u16);
        splat!($cx $v, u32x4_splat / u32x8_splat, u32);
        splat!($cx $v, u64x2_splat / u64x4_splat, u64);
        splat!($cx $v, i8x16_splat / i8x32_splat, i8);
        splat!($cx $v, i16x8_splat / i16x16_splat, i16);
        splat!($cx $v, i32x4_splat / i32x8_splat, i32);
        splat!($cx $v, i64x2_splat / i64x4_splat, i64);
        bin!($cx $v, ALL, u8x16_add / u8x32_add, u8, |a, b| a.wrapping_add(b));
        bin!($cx $v, ALL, u16x8_add / u16x16_add, u16, |a, b| a.wrapping_add(b));
        bin!($cx $v, ALL, u32x4_add / u32x8_add, u32, |a, b| a.wrapping_add(b));
        bin!($cx $v, ALL, u64x2_add / u64x4_add, u64, |a, b| a.wrapping_add(b));
        bin!($cx $v, ALL, u8x16_sub / u8x32_sub, u8, |a, b| a.wrapping_sub(b));
        bin!($cx $v, ALL, u16x8_sub / u16x16_sub, u16, |a, b| a.wrapping_sub(b));
        bin!($cx $v, ALL, u32x4_sub / u32x8_sub, u32, |a, b| a.wrapping_sub(b));
        bin!($cx $v, ALL, u64x2_sub / u64x4_sub, u64, |a, b| a.wrapping_sub(b));
        bin!($cx $v, ALL, u8x16_sub_sat / u8x32_sub_sat, u8, |a, b| a.saturating_sub(b));
        bin!($cx $v, ALL, u16x8_sub_sat / u16x16_sub_sat, u16, |a, b| a.saturating_sub(b));
        bin!($cx $v, ALL, i8x16_sub_sat / i8x32_sub_sat, i8, |a, b| a.saturating_sub(b));
        bin!($cx $v, ALL, i16x8_sub_sat / i16x16_sub_sat, i16, |a, b| a.saturating_sub(b));
        bin!($cx $v, ALL, i8x16_add_sat / i8x32_add_sat, i8, |a, b| a.saturating_add(b));
        bin!($cx $v, ALL, u8x16_add_sat / u8x32_add_sat, u8, |a, b| a.saturating_add(b));
        bin!($cx $v, ALL, i16x8_mul_lo / i16x16_mul_lo, i16, |a, b| a.wrapping_mul(b));
        bin!($cx $v, S41, i32x4_mul_lo / i32x8_mul_lo, i32, |a, b| a.wrapping_mul(b));
        bin!($cx $v, X, u16x8_mul_hi / u16x16_mul_hi, u16, |a, b| ((a as u32 * b as u32) >> 16) as u16);
        bin!($cx $v, X, i16x8_mul_hi / i16x16_mul_hi, i16, |a, b| ((a as i32 * b as i32) >> 16) as i16);
        gen2!($cx $v, X3, i16x8_maddubs / i16x16_maddubs, maddubs);
        gen2!($cx $v, X, i16x8_madd / i16x16_madd, madd);
        // ARM has no right shift by nothing: such code does not compile there
        #[cfg(not(any(target_arch = "aarch64", target_arch = "arm")))]
        {
            shifts16!($cx $v, 0);
            shifts32!($cx $v, 0);
        }
        shifts16!($cx $v, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
        shifts32!($cx $v, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
        bin!($cx $v, ALL, u8x16_eq / u8x32_eq, u8, |a, b| mask(a == b, u64::MAX) as u8);
        bin!($cx $v, ALL, u16x8_eq / u16x16_eq, u16, |a, b| mask(a == b, u64::MAX) as u16);
        bin!($cx $v, ALL, u32x4_eq / u32x8_eq, u32, |a, b| mask(a == b, u64::MAX) as u32);
        bin!($cx $v, ALL, u8x16_lt / u8x32_lt, u8, |a, b| mask(a < b, u64::MAX) as u8);
        bin!($cx $v, ALL, u16x8_lt / u16x16_lt, u16, |a, b| mask(a < b, u64::MAX) as u16);
        bin!($cx $v, ALL, u32x4_lt / u32x8_lt, u32, |a, b| mask(a < b, u64::MAX) as u32);
        bin!($cx $v, ALL, i8x16_lt / i8x32_lt, i8, |a, b| mask(a < b, u64::MAX) as i8);
        bin!($cx $v, ALL, i16x8_lt / i16x16_lt, i16, |a, b| mask(a < b, u64::MAX) as i16);
        bin!($cx $v, ALL, i32x4_lt / i32x8_lt, i32, |a, b| mask(a < b, u64::MAX) as i32);
        bin!($cx $v, ALL, u8x16_max / u8x32_max, u8, |a, b| a.max(b));
        bin!($cx $v, S41, u16x8_max / u16x16_max, u16, |a, b| a.max(b));
        bin!($cx $v, S41, u32x4_max / u32x8_max, u32, |a, b| a.max(b));
        bin!($cx $v, S41, i8x16_max / i8x32_max, i8, |a, b| a.max(b));
        bin!($cx $v, ALL, i16x8_max / i16x16_max, i16, |a, b| a.max(b));
        bin!($cx $v, S41, i32x4_max / i32x8_max, i32, |a, b| a.max(b));
        bin!($cx $v, ALL, u8x16_min / u8x32_min, u8, |a, b| a.min(b));
        bin!($cx $v, S41, u16x8_min / u16x16_min, u16, |a, b| a.min(b));
        bin!($cx $v, S41, u32x4_min / u32x8_min, u32, |a, b| a.min(b));
        bin!($cx $v, S41, i8x16_min / i8x32_min, i8, |a, b| a.min(b));
        bin!($cx $v, ALL, i16x8_min / i16x16_min, i16, |a, b| a.min(b));
        bin!($cx $v, S41, i32x4_min / i32x8_min, i32, |a, b| a.min(b));
        bin!($cx $v, ALL, u8x16_avgr / u8x32_avgr, u8, |a, b| ((a as u16 + b as u16 + 1) / 2) as u8);
        gen2!($cx $v, S3, u8x16_swizzle / u8x16x2_swizzle, swizzle);
        gen1!($cx $v, S3, Gen::Any, u16x8_bswap / u16x16_bswap, |w, i, o| bswap(w, 2, i, o));
        gen1!($cx $v, S3, Gen::Any, u32x4_bswap / u32x8_bswap, |w, i, o| bswap(w, 4, i, o));
        gen1!($cx $v, S3, Gen::Any, u64x2_bswap / u64x4_bswap, |w, i, o| bswap(w, 8, i, o));
        gen1!($cx $v, ALL, Gen::Any, u8x16_any_zero / u8x32_any_zero, any_zero);
        vop!($cx $v, BITS, "u8x16_bitmask", Gen::Any, |s, i, o| o.v(s.u8x16_bitmask(i.a128())), |i, o| o.v(highbits(16, i) as u16));
        vop!($cx $v, BITS, "u8x32_bitmask", Gen::Any, |s, i, o| o.v(s.u8x32_bitmask(i.a256())), |i, o| o.v(highbits(32, i)));
        vop!($cx $v, ALL, "v128_bsl", Gen::Any, |s, i, o| o.v(s.v128_bsl(i.a128(), i.b128(), i.c128())), |i, o| map3(16, i, o, |a, b, c| a & b | !a & c));
        vop!($cx $v, ALL, "v256_bsl", Gen::Any, |s, i, o| o.v(s.v256_bsl(i.a256(), i.b256(), i.c256())), |i, o| map3(32, i, o, |a, b, c| a & b | !a & c));
        vop!($cx $v, X41, "u8x16_blendv", Gen::Any, |s, i, o| o.v(s.u8x16_blendv(i.b128(), i.c128(), i.a128())), |i, o| map3(16, i, o, |a, b, c| if a >= 0x80 { c } else { b }));
        vop!($cx $v, X41, "u8x32_blendv", Gen::Any, |s, i, o| o.v(s.u8x32_blendv(i.b256(), i.c256(), i.a256())), |i, o| map3(32, i, o, |a, b, c| if a >= 0x80 { c } else { b }));
        gen2!($cx $v, ALL, u8x16_zip_lo / u8x16x2_zip_lo, |w, i, o| zip(w, 1, false, i, o));
        gen2!($cx $v, ALL, u8x16_zip_hi / u8x16x2_zip_hi, |w, i, o| zip(w, 1, true, i, o));
        gen2!($cx $v, ALL, u16x8_zip_lo / u16x8x2_zip_lo, |w, i, o| zip(w, 2, false, i, o));
        gen2!($cx $v, ALL, u16x8_zip_hi / u16x8x2_zip_hi, |w, i, o| zip(w, 2, true, i, o));
        gen2!($cx $v, ALL, u32x4_zip_lo / u32x4x2_zip_lo, |w, i, o| zip(w, 4, false, i, o));
        gen2!($cx $v, ALL, u32x4_zip_hi / u32x4x2_zip_hi, |w, i, o| zip(w, 4, true, i, o));
        gen2!($cx $v, ALL, u64x2_zip_lo / u64x2x2_zip_lo, |w, i, o| zip(w, 8, false, i, o));
        gen2!($cx $v, ALL, u64x2_zip_hi / u64x2x2_zip_hi, |w, i, o| zip(w, 8, true, i, o));
        vop!($cx $v, ALL, "v128x2_zip_lo", Gen::Any, |s, i, o| o.v(s.v128x2_zip_lo(i.a256(), i.b256())), |i, o| { o.put(&i.a[..16]); o.put(&i.b[..16]) });
        vop!($cx $v, ALL, "v128x2_zip_hi", Gen::Any, |s, i, o| o.v(s.v128x2_zip_hi(i.a256(), i.b256())), |i, o| { o.put(&i.a[16..]); o.put(&i.b[16..]) });
        gen2!($cx $v, WASM | ARM, u8x16_unzip_even / u8x32_unzip_even, |w, i, o| unzip(w, 1, false, i, o));
        gen2!($cx $v, WASM | ARM, u8x16_unzip_odd / u8x32_unzip_odd, |w, i, o| unzip(w, 1, true, i, o));
        vop!($cx $v, ALL, "u64x4_unzip_even", Gen::Any, |s, i, o| o.v(s.u64x4_unzip_even(i.a256(), i.b256())), |i, o| unzip(32, 8, false, i, o));
        vop!($cx $v, ALL, "u64x4_unzip_odd", Gen::Any, |s, i, o| o.v(s.u64x4_unzip_odd(i.a256(), i.b256())), |i, o| unzip(32, 8, true, i, o));
        vop!($cx $v, ALL, "u16x16_from_u8x16", Gen::Any, |s, i, o| o.v(s.u16x16_from_u8x16(i.a128())), widen);
        vop!($cx $v, X, "i16x8_packus", Gen::Any, |s, i, o| o.v(s.i16x8_packus(i.a128(), i.b128())), packus);
        vop!($cx $v, ARM, "u8x8_unzip_even", Gen::Any, |s, i, o| o.v(vsimd::SIMD64::u8x8_unzip_even(s, i.a128().to_v64x2().0, i.b128().to_v64x2().0)), |i, o| unzip(8, 1, false, i, o));
        vop!($cx $v, A64, "u8x16_reduce_max", Gen::Any, |s, i, o| o.v(s.u8x16_reduce_max(i.a128())), |i, o| o.v(*i.a[..16].iter().max().unwrap()));
        vop!($cx $v, A64, "u8x16_reduce_min", Gen::Any, |s, i, o| o.v(s.u8x16_reduce_min(i.a128())), |i, o| o.v(*i.a[..16].iter().min().unwrap()));
        vop!($cx $v, A64, "u8x32_reduce_max", Gen::Any, |s, i, o| o.v(s.u8x32_reduce_max(i.a256())), |i, o| o.v(*i.a.iter().max().unwrap()));
        vop!($cx $v, A64, "u8x32_reduce_min", Gen::Any, |s, i, o| o.v(s.u8x32_reduce_min(i.a256())), |i, o| o.v(*i.a.iter().min().unwrap()));
        vop!($cx $v, A64, "u8x32_swizzle", Gen::Any, |s, i, o| o.v(s.u8x32_swizzle(i.a256(), i.b256())), |i, o| swizzle32(0, i, o));
        vop!($cx $v, A64, "u8x32_swizzle in range", Gen::Any, |s, i, o| o.v(s.u8x32_swizzle(i.a256(), s.v256_and(i.b256(), s.u8x32_splat(0x3f)))), |i, o| swizzle32(0xc0, i, o));
        imm!($cx $v, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 27 30 31 32 33 39 48 51 63 64 66 78 85 90 102 120 127 128 129 141 147 153 165 170 177 180 192 198 204 216 219 225 228 238 240 247 251 253 254 255);
        // the width-generic layer
        sbin!($cx $v, ALL, and, u8, |a, b| a & b);
        sbin!($cx $v, ALL, or, u8, |a, b| a | b);
        sbin!($cx $v, ALL, xor, u8, |a, b| a ^ b);
        sbin!($cx $v, ALL, andnot, u8, |a, b| a & !b);
        ssplat!($cx $v, u8xn_splat, u8);
        ssplat!($cx $v, i8xn_splat, i8);
        ssplat!($cx $v, u32xn_splat, u32);
        sbin!($cx $v, ALL, u8xn_add, u8, |a, b| a.wrapping_add(b));
        sbin!($cx $v, ALL, u8xn_sub, u8, |a, b| a.wrapping_sub(b));
        sbin!($cx $v, ALL, u32xn_sub, u32, |a, b| a.wrapping_sub(b));
        sbin!($cx $v, ALL, u8xn_add_sat, u8, |a, b| a.saturating_add(b));
        sbin!($cx $v, ALL, i8xn_add_sat, i8, |a, b| a.saturating_add(b));
        sbin!($cx $v, ALL, u8xn_sub_sat, u8, |a, b| a.saturating_sub(b));
        sbin!($cx $v, ALL, u8xn_eq, u8, |a, b| mask(a == b, u64::MAX) as u8);
        sbin!($cx $v, ALL, i8xn_lt, i8, |a, b| mask(a < b, u64::MAX) as i8);
        sbin!($cx $v, ALL, u32xn_lt, u32, |a, b| mask(a < b, u64::MAX) as u32);
        sbin!($cx $v, S41, u32xn_max, u32, |a, b| a.max(b));
        sbin!($cx $v, ALL, u8xn_avgr, u8, |a, b| ((a as u16 + b as u16 + 1) / 2) as u8);
        sshifts!($cx $v, 1 3 4 8 12);
        vop!($cx $v, S3, "Scalable<V128>::u8x16xn_swizzle", Gen::Any, |s, i, o| o.v(Scalable::<V128>::u8x16xn_swizzle(s, i.a128(), i.b128())), |i, o| swizzle(16, i, o));
        vop!($cx $v, S3, "Scalable<V256>::u8x16xn_swizzle", Gen::Any, |s, i, o| o.v(Scalable::<V256>::u8x16xn_swizzle(s, i.a256(), i.b256())), |i, o| swizzle(32, i, o));
        sgen1!($cx $v, S41, Gen::Any, all_zero, all_zero);
        sgen1!($cx $v, ALL, Gen::Mask, mask8xn_all, mask_all);
        sgen1!($cx $v, ALL, Gen::Mask, mask8xn_any, mask_any);
        sgen1!($cx $v, ALL, Gen::Any, u8xn_highbit_all, highbit_all);
        sgen1!($cx $v, ALL, Gen::Any, u8xn_highbit_any, highbit_any);
        sun!($cx $v, S3, u16xn_bswap, u16, |x| x.swap_bytes());
        sun!($cx $v, S3, u32xn_bswap, u32, |x| x.swap_bytes());
        sun!($cx $v, S3, u64xn_bswap, u64, |x| x.swap_bytes());
    };
}

pub fn ops(isa: u8, v: &mut Vec<Op>) {
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    {
        match isa {
            SSE2 => {
                all!(["sse2" SSE2 SSE2] v);
            }
            SSSE3 => {
                all!(["ssse3" SSSE3 SSSE3] v);
            }
            SSE41 => {
                all!(["sse4.1" SSE41 SSE41] v);
            }
            AVX2 => {
                all!(["avx2" AVX2 AVX2] v);
            }
            _ => {}
        }
    }
    #[cfg(all(target_arch = "wasm32", target_feature = "simd128"))]
    if isa == WASM {
        all!(["simd128" WASM128 WASM] v);
    }
    #[cfg(target_arch = "aarch64")]
    if isa == A64 {
        all!(["neon" NEON A64] v);
    }
    #[cfg(all(target_arch = "arm", feature = "unstable"))]
    if isa == A32 {
        all!(["neon" NEON A32] v);
    }
    let _ = (isa, v);
}
