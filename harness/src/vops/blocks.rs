use super::*;
use crate::vop;
use vsimd::alsw::{self, AlswLut};
use vsimd::ascii;
use vsimd::hex;
use vsimd::mask;
use vsimd::table::u8x16xn_lookup;
use vsimd::tools;
use vsimd::vector::V512;

/// An ALSW specification: the choice of hashes is the caller's, the tables and what follows from them are the library's.
macro_rules! spec {
    ($t:ident, $alpha:ident, $text:expr, |$i:ident| $check:expr, |$j:ident| $dec:expr) => {
        const $alpha: &[u8] = $text;
        struct $t;
        #[allow(unused)]
        impl $t {
            const fn decode(c: u8) -> u8 {
                index($alpha, c)
            }
            const fn check_hash($i: u8) -> u8 {
                $check
            }
            const fn decode_hash($j: u8) -> u8 {
                $dec
            }
        }
        vsimd::impl_alsw!($t);
    };
}
const fn index(alpha: &[u8], c: u8) -> u8 {
    let mut k = 0;
    while k < alpha.len() {
        if alpha[k] == c {
            // the second half of the hexadecimal text repeats the letters in the other case
            return if k >= 16 && alpha.len() == 22 { k as u8 - 6 } else { k as u8 };
        }
        k += 1;
    }
    0xff
}
const fn hex_hash(i: u8) -> u8 {
    match i {
        0..=6 => 1,
        7..=9 => 6,
        _ => 8,
    }
}
const fn b32_hash(i: u8) -> u8 {
    match i {
        0x2..=0x7 => 6,
        0xB..=0xF => 7,
        _ => 1,
    }
}
const fn b32h_hash(i: u8) -> u8 {
    match i {
        0..=6 => 1,
        7..=9 => 7,
        _ => 2,
    }
}
spec!(Hex, HEX, b"0123456789ABCDEFabcdef", |i| hex_hash(i), |i| hex_hash(i));
spec!(Std, STD, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", |i| match i { 0 => 5, 1..=9 => 2, 0xA => 4, 0xC..=0xE => 8, _ => 6 }, |i| match i { 0xB => 7, 0xF => 8, _ => 1 });
spec!(Url, URL, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", |i| match i { 0 => 7, 1..=9 => 2, 0xA => 4, 0xD => 8, _ => 6 }, |i| match i { 0xF => 5, _ => 1 });
spec!(B32, B32A, b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", |i| b32_hash(i), |i| b32_hash(i));
spec!(B32h, B32HA, b"0123456789ABCDEFGHIJKLMNOPQRSTUV", |i| b32h_hash(i), |i| b32h_hash(i));

const LETTERS: &[u8] = b"AZaz[@`{MmZzAa@[{`\x7f\x80\xc1\xda\xe1\xfa 09";

fn digit(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}
fn is_hex(w: usize, i: &In, o: &mut Out) {
    o.v(i.a[..w].iter().all(|c| digit(*c).is_some()))
}
fn encode(n: usize, lut: &[u8; 16], i: &In, o: &mut Out) {
    for k in 0..n {
        o.put(&[lut[(i.a[k] >> 4) as usize], lut[(i.a[k] & 15) as usize]]);
    }
}
/// Ok and the bytes, or Err
fn decoded<V: Reg>(r: Result<V, ()>, o: &mut Out) {
    match r {
        Ok(v) => {
            o.v(true);
            o.v(v)
        }
        Err(()) => o.v(false),
    }
}
fn decode(n: usize, i: &In, o: &mut Out) {
    let all = i.a.iter().chain(i.b.iter()).take(n);
    if !all.clone().all(|c| digit(*c).is_some()) {
        return o.v(false);
    }
    o.v(true);
    let mut hi = None;
    for c in all {
        match hi.take() {
            None => hi = digit(*c),
            Some(h) => o.put(&[h << 4 | digit(*c).unwrap()]),
        }
    }
}
/// lanes: validity, and the value of the valid ones
fn lanes(w: usize, valid: impl Fn(usize) -> bool, value: impl Fn(usize) -> u8, o: &mut Out) {
    for k in 0..w {
        o.put(&[valid(k) as u8, if valid(k) { value(k) } else { 0 }]);
    }
}

macro_rules! alsw_ops {
    ($cx:tt $v:ident, $t:ident, $alpha:ident) => {
        vop!($cx $v, S3, concat!("alsw::check_ascii_xn<V128> ", stringify!($t)), Gen::Text($alpha), |s, i, o| o.v(alsw::check_ascii_xn(s, i.a128(), $t::check_lut())), |i, o| o.v(i.a[..16].iter().all(|c| $t::decode(*c) != 0xff)));
        vop!($cx $v, S3, concat!("alsw::check_ascii_xn<V256> ", stringify!($t)), Gen::Text($alpha), |s, i, o| o.v(alsw::check_ascii_xn(s, i.a256(), $t::check_lut().x2())), |i, o| o.v(i.a.iter().all(|c| $t::decode(*c) != 0xff)));
        vop!($cx $v, S3, concat!("alsw::decode_ascii_xn<V128> ", stringify!($t)), Gen::Text($alpha), |s, i, o| {
            let (c1, c2) = alsw::decode_ascii_xn(s, i.a128(), $t::check_lut(), $t::decode_lut());
            lanes(16, |k| c1.as_bytes()[k] < 0x80, |k| c2.as_bytes()[k], o)
        }, |i, o| lanes(16, |k| $t::decode(i.a[k]) != 0xff, |k| $t::decode(i.a[k]), o));
        vop!($cx $v, S3, concat!("alsw::decode_ascii_xn<V256> ", stringify!($t)), Gen::Text($alpha), |s, i, o| {
            let (c1, c2) = alsw::decode_ascii_xn(s, i.a256(), $t::check_lut().x2(), $t::decode_lut().x2());
            lanes(32, |k| c1.as_bytes()[k] < 0x80, |k| c2.as_bytes()[k], o)
        }, |i, o| lanes(32, |k| $t::decode(i.a[k]) != 0xff, |k| $t::decode(i.a[k]), o));
        // the scalar form of the same tables
        vop!($cx $v, ALL, concat!("alsw::check and decode ", stringify!($t)), Gen::Text($alpha), |s, i, o| {
            let c = |k: usize| alsw::check(&$t::CHECK_HASH, &$t::CHECK_OFFSET, i.a[k]);
            lanes(32, |k| c(k) < 0x80, |k| alsw::decode(&$t::DECODE_HASH, &$t::DECODE_OFFSET, i.a[k]), o)
        }, |i, o| lanes(32, |k| $t::decode(i.a[k]) != 0xff, |k| $t::decode(i.a[k]), o));
    };
}

macro_rules! both {
    ($cx:tt $v:ident, $need:expr, $gen:expr, $name:literal, $f:path, $model:expr) => {
        vop!($cx $v, $need, concat!($name, "<V128>"), $gen, |s, i, o| o.v($f(s, i.a128())), |i, o| $model(16, i, o));
        vop!($cx $v, $need, concat!($name, "<V256>"), $gen, |s, i, o| o.v($f(s, i.a256())), |i, o| $model(32, i, o));
    };
}
macro_rules! masks {
    ($cx:tt $v:ident, $gen:expr, $f:ident / $g:ident, $model:expr) => {
        vop!($cx $v, ALL, stringify!($f), $gen, |s, i, o| o.v(mask::$f(s, i.a128())), |i, o| $model(16, i, o));
        vop!($cx $v, ALL, stringify!($g), $gen, |s, i, o| o.v(mask::$g(s, i.a256())), |i, o| $model(32, i, o));
    };
}

fn lookup(w: usize, i: &In, o: &mut Out) {
    for k in 0..w {
        let x = i.b[k];
        o.put(&[if x >= 0x80 { 0 } else { i.a[k / 16 * 16 + (x & 15) as usize] }]);
    }
}

/// A buffer of elements, some of it to be swapped into another place of it or where it is.
fn scene(i: &In, n: usize) -> ([u64; 16], usize, usize, usize) {
    let mut m = [0u64; 16];
    for (k, x) in m.iter_mut().enumerate() {
        *x = u64::from_le_bytes(i.b[k % 4 * 8..k % 4 * 8 + 8].try_into().unwrap()).rotate_left(k as u32 * 5) ^ k as u64;
    }
    let total = 64 / n;
    let len = i.a[0] as usize % (total + 1);
    let src = i.a[1] as usize % (total - len + 1);
    let dst = if i.a[2] % 2 == 0 { src } else { total + i.a[3] as usize % (total - len + 1) };
    (m, len, src, dst)
}
macro_rules! swaps {
    ($cx:tt $v:ident, $t:ty, $n:literal) => {
        vop!($cx $v, S3, concat!("bswap_simd::<", stringify!($t), ">"), Gen::Any, |s, i, o| {
            let (mut m, len, src, dst) = scene(i, $n);
            let p = m.as_mut_ptr().cast::<$t>();
            vsimd::bswap::bswap_simd(s, p.add(src).cast_const(), len, p.add(dst));
            for x in m { o.put(&x.to_ne_bytes()) }
        }, |i, o| swapped($n, i, o));
        vop!($cx $v, ALL, concat!("bswap_fallback::<", stringify!($t), ">"), Gen::Any, |s, i, o| {
            let (mut m, len, src, dst) = scene(i, $n);
            let p = m.as_mut_ptr().cast::<$t>();
            vsimd::bswap::bswap_fallback(p.add(src).cast_const(), len, p.add(dst));
            for x in m { o.put(&x.to_ne_bytes()) }
        }, |i, o| swapped($n, i, o));
    };
}
fn swapped(n: usize, i: &In, o: &mut Out) {
    let (m, len, src, dst) = scene(i, n);
    let mut before = Out::new();
    for x in m {
        before.put(&x.to_ne_bytes());
    }
    o.put(before.bytes());
    for k in 0..len {
        for b in 0..n {
            o.buf[(dst + k) * n + b] = before.buf[(src + k) * n + n - 1 - b];
        }
    }
}

#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
macro_rules! sse2_ops {
    ($cx:tt $v:ident) => {
        vop!($cx $v, SSE2, "hex::sse2::decode_nibbles", Gen::Text(HEX), |s, i, o| {
            let (t7, t8) = hex::sse2::decode_nibbles(s, i.a128());
            lanes(16, |k| t8.as_bytes()[k] < 0x80, |k| t7.as_bytes()[k], o)
        }, |i, o| lanes(16, |k| digit(i.a[k]).is_some(), |k| digit(i.a[k]).unwrap(), o));
        vop!($cx $v, SSE2, "hex::sse2::merge_bits", Gen::Nibbles, |s, i, o| o.v(hex::sse2::merge_bits(s, i.a128())), |i, o| for k in 0..8 { o.put(&[i.a[2 * k] << 4 | i.a[2 * k + 1]]) });
        vop!($cx $v, SSE2, "hex::sse2::encode16 lower", Gen::Any, |s, i, o| o.v(hex::sse2::encode16(s, i.a128(), hex::sse2::LOWER_OFFSET)), |i, o| encode(16, b"0123456789abcdef", i, o));
        vop!($cx $v, SSE2, "hex::sse2::encode16 upper", Gen::Any, |s, i, o| o.v(hex::sse2::encode16(s, i.a128(), hex::sse2::UPPER_OFFSET)), |i, o| encode(16, b"0123456789ABCDEF", i, o));
    };
}

macro_rules! all {
    ($cx:tt $v:ident) => {
        both!($cx $v, ALL, Gen::Text(HEX), "hex::check_xn", hex::check_xn, is_hex);
        vop!($cx $v, S3, "hex::encode_bytes16 lower", Gen::Any, |s, i, o| o.v(hex::encode_bytes16(s, i.a128(), hex::ENCODE_LOWER_LUT)), |i, o| encode(16, b"0123456789abcdef", i, o));
        vop!($cx $v, S3, "hex::encode_bytes16 upper", Gen::Any, |s, i, o| o.v(hex::encode_bytes16(s, i.a128(), hex::ENCODE_UPPER_LUT)), |i, o| encode(16, b"0123456789ABCDEF", i, o));
        vop!($cx $v, S3, "hex::encode_bytes32 lower", Gen::Any, |s, i, o| o.v(hex::encode_bytes32(s, i.a256(), hex::ENCODE_LOWER_LUT)), |i, o| encode(32, b"0123456789abcdef", i, o));
        vop!($cx $v, S3, "hex::encode_bytes32 upper", Gen::Any, |s, i, o| o.v(hex::encode_bytes32(s, i.a256(), hex::ENCODE_UPPER_LUT)), |i, o| encode(32, b"0123456789ABCDEF", i, o));
        vop!($cx $v, S3, "hex::decode_ascii16", Gen::Text(HEX), |s, i, o| decoded(hex::decode_ascii16(s, i.a128()), o), |i, o| decode(16, i, o));
        vop!($cx $v, S3, "hex::decode_ascii32", Gen::Text(HEX), |s, i, o| decoded(hex::decode_ascii32(s, i.a256()), o), |i, o| decode(32, i, o));
        vop!($cx $v, S3, "hex::decode_ascii32x2", Gen::Text(HEX), |s, i, o| decoded(hex::decode_ascii32x2(s, (i.a256(), i.b256())), o), |i, o| decode(64, i, o));
        vop!($cx $v, ALL, "hex::unhex", Gen::Any, |s, i, o| for k in 0..32 { o.put(&[hex::unhex(i.a[k])]) }, |i, o| for k in 0..32 { o.put(&[digit(i.a[k]).unwrap_or(0xff)]) });
        alsw_ops!($cx $v, Hex, HEX);
        alsw_ops!($cx $v, Std, STD);
        alsw_ops!($cx $v, Url, URL);
        alsw_ops!($cx $v, B32, B32A);
        alsw_ops!($cx $v, B32h, B32HA);
        both!($cx $v, ALL, Gen::Any, "to_ascii_lowercase", ascii::to_ascii_lowercase, |w, i: &In, o: &mut Out| map1::<u8>(w, i, o, |c| c.to_ascii_lowercase()));
        both!($cx $v, ALL, Gen::Any, "to_ascii_uppercase", ascii::to_ascii_uppercase, |w, i: &In, o: &mut Out| map1::<u8>(w, i, o, |c| c.to_ascii_uppercase()));
        both!($cx $v, ALL, Gen::Text(LETTERS), "to_ascii_lowercase of text", ascii::to_ascii_lowercase, |w, i: &In, o: &mut Out| map1::<u8>(w, i, o, |c| c.to_ascii_lowercase()));
        both!($cx $v, ALL, Gen::Text(LETTERS), "to_ascii_uppercase of text", ascii::to_ascii_uppercase, |w, i: &In, o: &mut Out| map1::<u8>(w, i, o, |c| c.to_ascii_uppercase()));
        masks!($cx $v, Gen::Mask, mask8x16_all / mask8x32_all, |w: usize, i: &In, o: &mut Out| o.v(i.a[..w].iter().all(|c| *c == 0xff)));
        masks!($cx $v, Gen::Mask, mask8x16_any / mask8x32_any, |w: usize, i: &In, o: &mut Out| o.v(i.a[..w].contains(&0xff)));
        masks!($cx $v, Gen::Any, u8x16_highbit_all / u8x32_highbit_all, |w: usize, i: &In, o: &mut Out| o.v(i.a[..w].iter().all(|c| *c >= 0x80)));
        masks!($cx $v, Gen::Any, u8x16_highbit_any / u8x32_highbit_any, |w: usize, i: &In, o: &mut Out| o.v(i.a[..w].iter().any(|c| *c >= 0x80)));
        vop!($cx $v, S3, "u8x16xn_lookup<V128>", Gen::Any, |s, i, o| o.v(u8x16xn_lookup(s, i.a128(), i.b128())), |i, o| lookup(16, i, o));
        vop!($cx $v, S3, "u8x16xn_lookup<V256>", Gen::Any, |s, i, o| o.v(u8x16xn_lookup(s, i.a256(), i.b256())), |i, o| lookup(32, i, o));
        swaps!($cx $v, u16, 2);
        swaps!($cx $v, u32, 4);
        swaps!($cx $v, u64, 8);
        // run-time choice of an instruction set for a closure: it runs once, with the arguments it captured
        vop!($cx $v, ALL, "Native::exec", Gen::Any, |s, i, o| {
            let mut runs = 0u16;
            let own = i.a;
            let r = vsimd::native::Native::detect().exec(|| {
                runs += 1;
                let mut sum = [0u8; 32];
                for k in 0..32 { sum[k] = own[k].wrapping_mul(3) ^ i.b[k] }
                sum
            });
            o.v(runs);
            o.put(&r)
        }, |i, o| { o.v(1u16); for k in 0..32 { o.put(&[i.a[k].wrapping_mul(3) ^ i.b[k]]) } });
        vop!($cx $v, ALL, "register conversions", Gen::Any, |s, i, o| {
            let (a, b) = (i.a128(), i.b128());
            let v = V256::from_v128x2((a, b));
            o.v(v);
            o.v(v.to_v128x2());
            o.v(a.to_v64x2());
            o.put(&a.to_v64x2().1.to_u64().to_ne_bytes());
            o.v(a.x2());
            o.v(V256::double_bytes(*b.as_bytes()));
            o.v(V64::from_bytes(i.c[..8].try_into().unwrap()));
        }, |i, o| {
            let (a, b) = (&i.a[..16], &i.b[..16]);
            for x in [a, b, a, b, a, &a[8..], a, a, b, b, &i.c[..8]] { o.put(x) }
        });
        vop!($cx $v, ALL, "512-bit conversions", Gen::Any, |s, i, o| {
            let w = V512::from_v256x2((i.a256(), i.b256()));
            o.v(w.to_v256x2());
            let mut x = [0; 64];
            x[..32].copy_from_slice(&i.c);
            x[32..].copy_from_slice(&i.a);
            // halves of what was put in
            match i.c[0] % 4 {
                0 => o.put(V512::from_bytes(x).as_bytes()),
                1 => o.v(V512::from_bytes(x).to_v256x2()),
                2 => o.put(i.b256().x2().as_bytes()),
                _ => o.put(V512::double_bytes(i.b).as_bytes()),
            }
        }, |i, o| {
            let y = if i.c[0] % 4 < 2 { [&i.c, &i.a] } else { [&i.b, &i.b] };
            for x in [&i.a, &i.b, y[0], y[1]] { o.put(x) }
        });
        vop!($cx $v, ALL, "slices", Gen::Any, |s, i, o| {
            let n = i.b[0] as usize % 33;
            let x = &i.a[..n];
            let (mut sum, mut seen) = (0u8, 0u8);
            tools::unroll(x, 1 + i.b[1] as usize % 9, |c| {
                sum = sum.wrapping_mul(5).wrapping_add(*c);
                seen += 1;
            });
            o.put(&[sum, seen]);
            let (p, m) = tools::slice_parts(x);
            o.v(p == x.as_ptr() && m == n);
            let (h, b, t) = vsimd::pod::align::<u8, u64>(x);
            let b: &[u64] = b;
            o.v(h.as_ptr() == x.as_ptr() && h.len() + 8 * b.len() + t.len() == n && b.as_ptr() as usize % 8 == 0);
            let mut y = [0u8; 32];
            y[..h.len()].copy_from_slice(h);
            for (k, w) in b.iter().enumerate() { y[h.len() + 8 * k..][..8].copy_from_slice(&w.to_ne_bytes()) }
            y[n - t.len()..n].copy_from_slice(t);
            o.put(&y);
            o.v(tools::is_same_type::<u8, u8>() && !tools::is_same_type::<u8, i8>() && !tools::is_same_type::<u32, [u8; 4]>());
        }, |i, o| {
            let n = i.b[0] as usize % 33;
            o.put(&[i.a[..n].iter().fold(0u8, |s, c| s.wrapping_mul(5).wrapping_add(*c)), n as u8]);
            o.v(true);
            o.v(true);
            let mut y = [0u8; 32];
            y[..n].copy_from_slice(&i.a[..n]);
            o.put(&y);
            o.v(true);
        });
        vop!($cx $v, ALL, "simulation", Gen::Any, |s, i, o| {
            o.v(vsimd::simulation::u8x16_bitmask(i.a128()));
            let k = i.c[0] % 16;
            o.v(vsimd::simulation::u16x8_shl(i.a128(), k));
            o.v(vsimd::simulation::u16x8_shr(i.a128(), k));
            o.v(vsimd::simulation::i16x8_packus(i.a128(), i.b128()));
        }, |i, o| {
            o.v((0..16).fold(0u16, |m, k| m | ((i.a[k] >> 7) as u16) << k));
            let n = i.c[0] % 16;
            map1::<u16>(16, i, o, |x| x << n);
            map1::<u16>(16, i, o, |x| x >> n);
            for x in [&i.a, &i.b] {
                for k in 0..8 { o.put(&[i16::from_le_bytes([x[2 * k], x[2 * k + 1]]).clamp(0, 255) as u8]) }
            }
        });
    };
}

pub fn ops(isa: u8, v: &mut Vec<Op>) {
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    {
        match isa {
            SSE2 => {
                all!(["sse2" SSE2 SSE2] v);
                sse2_ops!(["sse2" SSE2 SSE2] v);
            }
            SSSE3 => {
                all!(["ssse3" SSSE3 SSSE3] v);
            }
            SSE41 => {
                all!(["sse4.1" SSE41 SSE41] v);
            }
            AVX2 => {
                all!(["avx2" AVX2 AVX2] v);
            }
            _ => {}
        }
    }
    #[cfg(all(target_arch = "wasm32", target_feature = "simd128"))]
    if isa == WASM {
        all!(["simd128" WASM128 WASM] v);
    }
    #[cfg(target_arch = "aarch64")]
    if isa == A64 {
        all!(["neon" NEON A64] v);
    }
    #[cfg(all(target_arch = "arm", feature = "unstable"))]
    if isa == A32 {
        all!(["neon" NEON A32] v);
    }
    let _ = (isa, v);
}
