//! Input generators. Everything is driven by one seeded generator and fixed iteration counts (never by wall clock),
//! so that a run is replayed exactly by its seed, scale and build.
use crate::ops::Fail;
use crate::rng::Rng;
use crate::spec::{self, Sem};
use alloc::vec;
use alloc::vec::Vec;

pub type R = Result<(), Fail>;
pub type Sink<'a> = &'a mut dyn FnMut(&[u8]) -> R;

/// How much to generate.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Scale {
    /// interpreters: a few hundred inputs per operation
    Tiny,
    /// slow monitors: single-stepping, fresh pages, debug builds
    Small,
    Quick,
    Thorough,
}
use Scale::*;

impl Scale {
    pub fn by<T>(self, tiny: T, small: T, quick: T, thorough: T) -> T {
        match self {
            Tiny => tiny,
            Small => small,
            Quick => quick,
            Thorough => thorough,
        }
    }
}

/// Lengths around the vector widths and their multiples.
fn edge_lengths(max: usize) -> Vec<usize> {
    let mut v = vec![];
    for k in 0..=max {
        let near = |w: usize| (k % w) <= 1 || (k % w) == w - 1;
        if k <= 20 || near(12) || near(16) || near(20) || near(24) || near(32) {
            v.push(k);
        }
    }
    v
}

fn tiny_lengths(rng: &mut Rng, max: usize, n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 5, 8, 12, 16, 17, 20, 24, 31, 32, 33, 40, 48, 50, 63, 64, 65, 70];
    v.retain(|&x| x <= max);
    while v.len() > n {
        let k = rng.below(v.len());
        v.swap_remove(k);
    }
    while v.len() < n {
        v.push(rng.below(max + 1));
    }
    v
}

/// Lengths beyond a few vector blocks: spread evenly over the orders of magnitude, and next to powers of two (where an
/// implementation might work in chunks, or count in too few bits).
fn large_lengths(sc: Scale, rng: &mut Rng, unit: usize) -> Vec<usize> {
    let mut v = vec![];
    for _ in 0..sc.by(0, 6, 40, 160) {
        let k = rng.range(8, sc.by(8, 10, 16, 16));
        v.push((1usize << k) + rng.below(1 << k));
    }
    for k in 8..=sc.by(0, 11, 17, 18) {
        let n = 1usize << k;
        v.extend([n, n + rng.range(1, 70)]);
        if sc >= Quick {
            v.extend([n - 1, n + 1, n - rng.range(2, 70), n + n / 2 + rng.below(40)]);
        }
    }
    for n in &mut v {
        *n = (*n / unit).max(1);
    }
    v
}

/// A position in a long input: anywhere, next to a multiple of a power of two, or near either end.
/// Positions such that exactly 256 (or 65536) blocks of `w` units contain one each: what counts in too narrow a type
/// comes out at zero. With the number of units they span.
fn wrapping_counts(sc: Scale, rng: &mut Rng, mut f: impl FnMut(&mut Rng, usize, &[usize]) -> R) -> R {
    if sc == Tiny {
        return Ok(());
    }
    for w in [1usize, 2, 4, 8, 12, 16, 20, 24, 32, 40, 48, 64] {
        for k in [256usize, 512, 65536] {
            if w * k > sc.by(0, 4096, 1 << 19, 1 << 21) || sc == Small && w != 16 {
                continue;
            }
            let fixed = rng.below(w);
            let p: Vec<usize> = (0..k).map(|i| i * w + fixed).collect();
            f(rng, w * k, &p)?;
            if sc >= Quick {
                let p: Vec<usize> = (0..k).map(|i| i * w + rng.below(w)).collect();
                f(rng, w * k, &p)?;
                // and a tail without any
                let t = rng.range(1, 64);
                f(rng, w * k + t, &p)?;
            }
        }
    }
    Ok(())
}
fn spot(rng: &mut Rng, n: usize) -> usize {
    let p = match rng.below(6) {
        0 => rng.below(n),
        1 => rng.below(n.min(100)),
        2 => n - 1 - rng.below(n.min(100)),
        _ => {
            let top = (usize::BITS - n.leading_zeros()) as usize;
            let j = rng.range(5.min(top), top);
            let m = (n >> j) + 1;
            ((rng.below(m) << j) + rng.below(70)).saturating_sub(35)
        }
    };
    p.min(n - 1)
}

/// Arbitrary byte strings for the encoders.
pub fn raw(sc: Scale, rng: &mut Rng, f: Sink) -> R {
    if sc == Tiny {
        for n in tiny_lengths(rng, 100, 12) {
            f(&rng.bytes(n))?;
        }
        let ramp: Vec<u8> = (0..=255).collect();
        let k = rng.below(3);
        f(&ramp[..if k == 0 { 256 } else { 100 + rng.below(100) }])?;
        return Ok(());
    }
    let max = sc.by(0, 132, 288, 520);
    for n in 0..=max {
        f(&vec![0; n])?;
        f(&vec![0xff; n])?;
        for _ in 0..sc.by(0, 1, 4, 24) {
            f(&rng.bytes(n))?;
        }
        let start = rng.u8();
        let step = rng.u8() | 1;
        let v: Vec<u8> = (0..n).map(|i| start.wrapping_add(step.wrapping_mul(i as u8))).collect();
        f(&v)?;
    }
    // every value at every position
    let lens: Vec<usize> = match sc {
        Small => vec![15, 28, 33, 70],
        Quick => (1..=36).chain([47, 48, 49, 63, 64, 65, 66, 95, 96, 97, 100, 127, 128, 129]).collect(),
        _ => (1..=200).collect(),
    };
    for n in lens {
        for start in (0..=255u8).step_by(sc.by(1, 5, 1, 1)) {
            let v: Vec<u8> = (0..n).map(|i| start.wrapping_add((i as u8).wrapping_mul(37))).collect();
            f(&v)?;
        }
    }
    // a single bit at every position
    for n in sc.by(vec![], vec![33], vec![12, 28, 33, 60, 96], (1..=130).collect()) {
        for bit in 0..n * 8 {
            let mut v = vec![0; n];
            v[bit / 8] = 1 << (bit % 8);
            f(&v)?;
            if sc >= Quick {
                for x in &mut v {
                    *x = !*x;
                }
                f(&v)?;
            }
        }
    }
    // block-periodic contents, so that a lane taken from the wrong place shows or two that cancel do not hide it
    for _ in 0..sc.by(0, 40, 600, 6000) {
        let n = rng.range(1, 400);
        let p = rng.range(1, 40);
        let pat = rng.bytes(p);
        let v: Vec<u8> = (0..n).map(|i| pat[i % p]).collect();
        f(&v)?;
    }
    for n in sc.by(vec![], vec![1000], vec![1023, 4095, 4096, 4097, 12345, 65536], vec![4095, 4096, 4097, 65535, 65536, 65537, 1 << 20]) {
        f(&rng.bytes(n))?;
    }
    for n in large_lengths(sc, rng, 1) {
        f(&rng.bytes(n))?;
    }
    for _ in 0..sc.by(0, 60, 1500, 40000) {
        let m = if rng.one_in(4) { 2000 } else { 300 };
        let n = rng.below(m);
        f(&rng.bytes(n))?;
    }
    Ok(())
}

/// A textual code: its alphabet, its encoder, and how a random valid text of it looks.
pub struct Code {
    /// symbols by value
    pub sym: Vec<u8>,
    /// accepted alternatives (hex: the other case)
    pub alt: Vec<u8>,
    pub group: usize,
    pub pad: bool,
    pub enc: fn(&[u8], usize) -> Vec<u8>,
    pub arg: usize,
}

pub fn code(sem: Sem) -> Code {
    match sem {
        Sem::B64Dec(v) | Sem::B64Chk(v) | Sem::B64Len(v) | Sem::B64Enc(v) => Code {
            sym: spec::b64_charset(v),
            alt: spec::b64_charset(v),
            group: 4,
            pad: spec::b64_pad(v),
            enc: |s, a| spec::b64_encode(s, spec::B64S[a]),
            arg: v as usize,
        },
        Sem::B32Dec(v) | Sem::B32Chk(v) | Sem::B32Len(v) | Sem::B32Enc(v) => Code {
            sym: spec::b32_charset(v),
            alt: spec::b32_charset(v),
            group: 8,
            pad: spec::b32_pad(v),
            enc: |s, a| spec::b32_encode(s, spec::B32S[a]),
            arg: v as usize,
        },
        Sem::Forg => code(Sem::B64Dec(spec::B64::Std)),
        _ => Code {
            sym: b"0123456789abcdef".to_vec(),
            alt: b"0123456789ABCDEF".to_vec(),
            group: 2,
            pad: false,
            enc: |s, _| spec::hex_encode(s, false),
            arg: 0,
        },
    }
}

impl Code {
    fn is_hex(&self) -> bool {
        self.group == 2
    }
    pub fn valid(&self, data: &[u8], rng: &mut Rng) -> Vec<u8> {
        let mut v = (self.enc)(data, self.arg);
        if self.is_hex() {
            match rng.below(4) {
                0 => {}
                1 => v.make_ascii_uppercase(),
                _ => {
                    for c in &mut v {
                        if rng.one_in(2) {
                            c.make_ascii_uppercase();
                        }
                    }
                }
            }
        }
        v
    }
    /// Bytes that are not symbols, nearest to them first.
    pub fn bad(&self) -> Vec<u8> {
        let mut v: Vec<u8> = vec![];
        let mut out = [false; 256];
        for &c in self.sym.iter().chain(&self.alt) {
            out[c as usize] = true;
        }
        let mut add = |c: u8| {
            if !out[c as usize] {
                out[c as usize] = true;
                v.push(c);
            }
        };
        for &c in self.sym.iter().chain(&self.alt) {
            add(c.wrapping_sub(1));
            add(c.wrapping_add(1));
        }
        for c in [b'=', 0, 0x7f, 0x80, 0xff, b'-', b'_', b'+', b'/', b' ', b'\n', b'@', b'[', b'`', b'{'] {
            add(c);
        }
        for &c in &self.sym {
            add(c | 0x80);
            add(c ^ 0x20);
            add(c & 0x1f);
        }
        for c in 0..=255 {
            add(c);
        }
        v
    }
    fn rand_bad(&self, bad: &[u8], rng: &mut Rng) -> u8 {
        if rng.one_in(2) {
            bad[rng.below(bad.len().min(24))]
        } else {
            *rng.pick(bad)
        }
    }
    /// A byte count whose encoding is about `len` characters long.
    fn data_for(&self, len: usize) -> usize {
        match self.group {
            4 => len * 3 / 4,
            8 => len * 5 / 8,
            _ => len / 2,
        }
    }
}

/// Candidate encodings, valid and not, for the strict decoders, checkers and length predictors.
pub fn text(sem: Sem, sc: Scale, rng: &mut Rng, f: Sink) -> R {
    let c = code(sem);
    let bad = c.bad();
    if sc == Tiny {
        for n in tiny_lengths(rng, 100, 7) {
            let d = rng.bytes(n);
            let v = c.valid(&d, rng);
            f(&v)?;
            if !v.is_empty() {
                let mut w = v.clone();
                let p = rng.below(w.len());
                w[p] = c.rand_bad(&bad, rng);
                f(&w)?;
                let cut = rng.below(v.len().min(9));
                f(&v[..v.len() - cut])?;
                let mut w = v.clone();
                let k = w.len() - 1 - rng.below(w.len().min(8));
                w[k] = b'=';
                f(&w)?;
                let mut w = v;
                let k = w.len() - 1;
                w[k] = *rng.pick(&c.sym);
                f(&w)?;
            }
        }
        let all: Vec<u8> = c.sym.iter().chain(&c.alt).copied().collect();
        let k = all.len() / c.group * c.group;
        f(&all[..k])?;
        return Ok(());
    }
    // valid ones
    let max = sc.by(0, 100, 220, 420);
    for n in 0..=max {
        for k in 0..sc.by(0, 1, 6, 30) {
            let d = match k {
                0 => {
                    let s = rng.u8();
                    (0..n).map(|i| s.wrapping_add((i as u8).wrapping_mul(101))).collect()
                }
                _ => rng.bytes(n),
            };
            f(&c.valid(&d, rng))?;
        }
    }
    // every symbol at every position
    for n in sc.by(vec![], vec![32, 48], vec![8, 16, 24, 32, 40, 64, 72, 96], (1..=20).map(|k| k * 8).collect()) {
        for start in 0..c.sym.len() {
            let v: Vec<u8> = (0..n)
                .map(|i| {
                    let k = (start + i * 7) % c.sym.len();
                    if rng.one_in(2) {
                        c.sym[k]
                    } else {
                        c.alt[k]
                    }
                })
                .collect();
            f(&v)?;
        }
    }
    // every length of symbols, possible or not, with and without a zero last symbol
    for n in 0..=sc.by(0, 140, 300, 600) {
        let mut v: Vec<u8> = (0..n).map(|_| *rng.pick(&c.sym)).collect();
        f(&v)?;
        if n > 0 {
            v[n - 1] = c.sym[0];
            f(&v)?;
        }
    }
    // one bad byte at every position of every length
    let lens: Vec<usize> = match sc {
        Small => vec![4, 8, 16, 24, 31, 32, 33, 40, 64, 72],
        Quick => edge_lengths(150),
        _ => (1..=200).collect(),
    };
    for &n in &lens {
        for p in 0..n {
            for _ in 0..sc.by(0, 1, 4, 24) {
                let d = rng.bytes(c.data_for(n));
                let mut v = c.valid(&d, rng);
                if v.is_empty() {
                    continue;
                }
                let p = p.min(v.len() - 1);
                v[p] = c.rand_bad(&bad, rng);
                f(&v)?;
            }
        }
    }
    // every byte value at every position of some lengths
    for n in sc.by(vec![], vec![16, 40], vec![8, 16, 24, 32, 40, 64, 72, 96], (1..=17).map(|k| k * 8).collect()) {
        let d = rng.bytes(c.data_for(n));
        let v = c.valid(&d, rng);
        let step = sc.by(1, 3, 1, 1);
        for p in 0..v.len() {
            let mut w = v.clone();
            for x in (0..=255u8).step_by(step) {
                w[p] = x;
                f(&w)?;
            }
        }
    }
    // bad byte x valid neighbour on either side: vector shifts let neighbours bleed into a lane
    {
        let reps = sc.by(0, 1, 1, 8);
        let nsym = sc.by(1, 6, c.sym.len(), c.sym.len());
        for _ in 0..reps {
            for &b in &bad {
                for s in 0..nsym {
                    let sy = if nsym == c.sym.len() { c.sym[s] } else { *rng.pick(&c.sym) };
                    let n = *rng.pick(&[16usize, 32, 48, 64, 80, 96]);
                    let mut v: Vec<u8> = (0..n).map(|_| *rng.pick(&c.sym)).collect();
                    let p = rng.below(n);
                    v[p] = b;
                    if p > 0 {
                        v[p - 1] = sy;
                    }
                    if p + 1 < n {
                        v[p + 1] = *rng.pick(&c.alt);
                    }
                    f(&v)?;
                    if p + 1 < n {
                        v[p + 1] = sy;
                    }
                    f(&v)?;
                }
            }
        }
    }
    // several bad bytes: the same at two places, in the same lane of two blocks, or everywhere
    for _ in 0..sc.by(0, 150, 4000, 80000) {
        let n = rng.range(2, 200);
        let mut v: Vec<u8> = (0..n).map(|_| *rng.pick(&c.sym)).collect();
        let b = c.rand_bad(&bad, rng);
        let p = rng.below(n);
        v[p] = b;
        match rng.below(5) {
            0 => v[(p + 16) % n] = b,
            1 => v[(p + 32) % n] = b,
            2 => {
                let q = rng.below(n);
                v[q] = c.rand_bad(&bad, rng);
            }
            3 => {
                let q = rng.below(n);
                v[q] = b;
            }
            _ => v.iter_mut().for_each(|x| *x = b),
        }
        f(&v)?;
    }
    // every subset of '=' among the last characters
    for &n in sc.by(&[8, 40][..], &[8, 40], &[4, 8, 12, 16, 24, 32, 40, 48, 64, 72, 80, 104], &[4, 8, 12, 16, 20, 24, 28, 32, 36, 40, 44, 48, 56, 60, 64, 68, 72, 76, 80, 88, 96, 104]) {
        for cut in 0..c.group.min(n) {
            for mask in 0u32..256 {
                let mut v: Vec<u8> = (0..n - cut).map(|_| *rng.pick(&c.sym)).collect();
                let l = v.len();
                for b in 0..8 {
                    if mask >> b & 1 == 1 && b < l {
                        v[l - 1 - b] = b'=';
                    }
                }
                // canonical trailing bits half of the time
                if rng.one_in(2) {
                    if let Some(p) = v.iter().rposition(|&x| x != b'=') {
                        v[p] = c.sym[0];
                    }
                }
                f(&v)?;
            }
        }
    }
    // every last symbol, for every remainder: trailing bits
    for n in sc.by(0..0, 1..12, 1..60, 1..140) {
        let d = rng.bytes(n);
        let v = c.valid(&d, rng);
        let body = v.iter().rposition(|&x| x != b'=').unwrap();
        for &s in &c.sym {
            let mut w = v.clone();
            w[body] = s;
            f(&w)?;
            if sc >= Quick && body > 0 {
                w[body] = v[body];
                w[body - 1] = s;
                f(&w)?;
            }
        }
        // padding cut, doubled, or followed by something
        for k in 0..v.len().min(10) {
            f(&v[..v.len() - k])?;
            let mut w = v.clone();
            w.extend(core::iter::repeat(b'=').take(k));
            f(&w)?;
            w.push(*rng.pick(&c.sym));
            f(&w)?;
        }
    }
    // other codes' texts, case flips, spaces, random bytes
    for _ in 0..sc.by(0, 150, 3000, 60000) {
        let n = rng.below(130);
        let d = rng.bytes(n);
        let mut v = match rng.below(7) {
            0 => rng.bytes(n),
            1 => d.iter().map(|x| 33 + x % 94).collect(),
            2 => d.iter().map(|x| x & 0x7f).collect(),
            3 => spec::b64_encode(&d, *rng.pick(&spec::B64S)),
            4 => spec::b32_encode(&d, *rng.pick(&spec::B32S)),
            5 => {
                let mut v = c.valid(&d, rng);
                v.make_ascii_lowercase();
                v
            }
            _ => {
                let mut v = c.valid(&d, rng);
                let k = rng.below(v.len() + 1);
                v.insert(k, *rng.pick(b" \n\t\r=\0"));
                v
            }
        };
        if rng.one_in(8) && !v.is_empty() {
            let k = rng.below(v.len());
            v[k] |= 0x80;
        }
        f(&v)?;
    }
    // large
    for n in sc.by(vec![], vec![3000], vec![3000, 4096, 12288, 49152 + 7], vec![4096, 12288, 65536, 65537, 1 << 20]) {
        let d = rng.bytes(n);
        let v = c.valid(&d, rng);
        f(&v)?;
        for _ in 0..4 {
            let mut w = v.clone();
            let p = rng.below(w.len());
            w[p] = c.rand_bad(&bad, rng);
            f(&w)?;
        }
    }
    for n in large_lengths(sc, rng, 1) {
        let d = rng.bytes(c.data_for(n));
        let mut v = c.valid(&d, rng);
        f(&v)?;
        for k in 0..sc.by(0, 2, 6, 16) {
            let p = spot(rng, v.len());
            let o = v[p];
            v[p] = c.rand_bad(&bad, rng);
            let q = spot(rng, v.len());
            let o2 = v[q];
            if k % 4 == 3 {
                v[q] = c.rand_bad(&bad, rng);
            }
            f(&v)?;
            v[q] = o2;
            v[p] = o;
        }
    }
    wrapping_counts(sc, rng, |rng, n, ps| {
        let n = n.div_ceil(c.group) * c.group;
        let mut v: Vec<u8> = (0..n).map(|_| *rng.pick(&c.sym)).collect();
        let same = if rng.one_in(2) { Some(c.rand_bad(&bad, rng)) } else { None };
        for &p in ps {
            v[p] = same.unwrap_or_else(|| c.rand_bad(&bad, rng));
        }
        f(&v)
    })?;
    Ok(())
}

const WS: [u8; 5] = [9, 10, 12, 13, 32];
const NEAR_WS: [u8; 12] = [0x0b, 0x00, 0x08, 0x0e, 0x1c, 0x1f, 0x21, 0x85, 0xa0, 0x89, 0x8a, 0xff];

/// Inputs of the forgiving decoder.
pub fn forgiving(sc: Scale, rng: &mut Rng, f: Sink) -> R {
    let c = code(Sem::Forg);
    let bad = c.bad();
    let valid = |rng: &mut Rng, n: usize| -> Vec<u8> {
        let d = rng.bytes(n);
        spec::b64_encode(&d, *rng.pick(&[spec::B64::Std, spec::B64::StdNoPad]))
    };
    if sc == Tiny {
        for n in tiny_lengths(rng, 80, 10) {
            let mut v = valid(rng, n);
            f(&v)?;
            for _ in 0..rng.range(1, 5) {
                let p = rng.below(v.len() + 1);
                v.insert(p, *rng.pick(&WS));
            }
            f(&v)?;
            let p = rng.below(v.len());
            v[p] = if rng.one_in(2) { *rng.pick(&NEAR_WS) } else { c.rand_bad(&bad, rng) };
            f(&v)?;
            v[p] = b'=';
            f(&v)?;
        }
        return Ok(());
    }
    // valid, with and without padding, and with any last symbol (discarded bits)
    for n in 0..=sc.by(0, 100, 200, 400) {
        for _ in 0..sc.by(0, 1, 4, 20) {
            let mut v = valid(rng, n);
            f(&v)?;
            if let Some(p) = v.iter().rposition(|&x| x != b'=') {
                v[p] = *rng.pick(&c.sym);
                f(&v)?;
            }
        }
    }
    // one whitespace (or almost whitespace) byte at every position of every length
    let lens: Vec<usize> = match sc {
        Small => vec![1, 12, 24, 48],
        Quick => (1..=100).collect(),
        _ => (1..=180).collect(),
    };
    for &n in &lens {
        let len = valid(rng, n).len();
        for p in 0..=len + 3 {
            for k in 0..sc.by(0, 1, 2, 10) {
                let mut v = valid(rng, n);
                let p = p.min(v.len());
                let w = if k % 2 == 0 { *rng.pick(&WS) } else { *rng.pick(&NEAR_WS) };
                v.insert(p, w);
                f(&v)?;
                if k == 0 && p < v.len() {
                    // replacing instead of inserting changes the length modulo four
                    let mut u = valid(rng, n);
                    let p = p.min(u.len() - 1);
                    u[p] = *rng.pick(&WS);
                    f(&u)?;
                }
            }
        }
    }
    // runs and sprinkles of whitespace
    for _ in 0..sc.by(0, 200, 12000, 200000) {
        let n = rng.below(100);
        let mut v = valid(rng, n);
        match rng.below(6) {
            0 => {
                let p = rng.below(v.len() + 1);
                let k = rng.range(1, 80);
                let w = *rng.pick(&WS);
                let t = v.split_off(p);
                v.extend(core::iter::repeat(w).take(k));
                v.extend(t);
            }
            1 => {
                let k = rng.range(1, 30);
                for _ in 0..k {
                    let p = rng.below(v.len() + 1);
                    v.insert(p, *rng.pick(&WS));
                }
            }
            2 => {
                // PEM-like lines
                let w = rng.range(1, 76);
                let mut u = vec![];
                for (i, &x) in v.iter().enumerate() {
                    if i > 0 && i % w == 0 {
                        if rng.one_in(2) {
                            u.push(13);
                        }
                        u.push(10);
                    }
                    u.push(x);
                }
                u.push(10);
                v = u;
            }
            3 => {
                // whitespace only in the tail or only in the head
                let k = rng.range(1, 40);
                for _ in 0..k {
                    let p = if rng.one_in(2) { v.len() - v.len().min(rng.below(6)) } else { 0 };
                    v.insert(p, *rng.pick(&WS));
                }
            }
            4 => {
                // nothing but whitespace and padding
                v.clear();
                for _ in 0..n {
                    v.push(if rng.one_in(6) { b'=' } else { *rng.pick(&WS) });
                }
            }
            _ => {
                let mut i = 0;
                while i < v.len() {
                    v.insert(i, *rng.pick(&WS));
                    i += 2;
                }
            }
        }
        if rng.one_in(3) && !v.is_empty() {
            let p = rng.below(v.len());
            v[p] = match rng.below(4) {
                0 => *rng.pick(&NEAR_WS),
                1 => b'=',
                2 => *rng.pick(&c.sym),
                _ => c.rand_bad(&bad, rng),
            };
        }
        if rng.one_in(4) {
            for _ in 0..rng.range(1, 4) {
                let back = rng.below(7);
                let p = v.len() - v.len().min(back);
                v.insert(p, b'=');
            }
        }
        f(&v)?;
    }
    // short strings over a tiny alphabet: exhaustive
    let al = [b'A', b'/', b'=', b' ', b'\n', b'B', 0x0b, b'-'];
    let k = sc.by(2, 3, 6, 7);
    let na: usize = 8;
    for len in 0..=k {
        let total = if len == 0 { 1 } else { na.pow(len as u32) };
        let step = if total > 40000 { sc.by(1, 1, 5, 1) } else { 1 };
        let mut i = 0;
        while i < total {
            let mut x = i;
            let v: Vec<u8> = (0..len)
                .map(|_| {
                    let a = al[x % na];
                    x /= na;
                    a
                })
                .collect();
            f(&v)?;
            // the same as the tail of a vectorised prefix
            if len > 0 && (i % 7 == 0 || sc == Thorough) {
                let m = rng.range(1, 20) * 4;
                let mut u: Vec<u8> = (0..m).map(|_| *rng.pick(&c.sym)).collect();
                u.extend_from_slice(&v);
                f(&u)?;
            }
            i += step;
        }
    }
    // one bad byte at every position; every byte value in some
    for &n in &lens {
        let len = valid(rng, n).len();
        for p in 0..len {
            let mut v = valid(rng, n);
            let p = p.min(v.len() - 1);
            v[p] = c.rand_bad(&bad, rng);
            f(&v)?;
        }
    }
    for n in sc.by(vec![], vec![24], vec![12, 24, 30, 48, 61], (1..80).collect()) {
        let v = valid(rng, n);
        for p in 0..v.len() {
            let mut w = v.clone();
            for x in (0..=255u8).step_by(sc.by(1, 3, 1, 1)) {
                w[p] = x;
                f(&w)?;
            }
        }
    }
    for _ in 0..sc.by(0, 30, 1500, 30000) {
        let n = rng.below(200);
        f(&rng.bytes(n))?;
        let v: Vec<u8> = (0..n).map(|_| *rng.pick(b"AB/=\n \t\x0c\rz09+")).collect();
        f(&v)?;
    }
    for n in sc.by(vec![], vec![2000], vec![3000, 49152], vec![3000, 49152, 1 << 20]) {
        let v = valid(rng, n);
        f(&v)?;
        let mut u = vec![];
        for (i, &x) in v.iter().enumerate() {
            if i % 76 == 75 {
                u.extend(b"\r\n");
            }
            u.push(x);
        }
        f(&u)?;
    }
    for n in large_lengths(sc, rng, 1) {
        let mut v = valid(rng, n * 3 / 4);
        f(&v)?;
        for k in 0..sc.by(0, 2, 6, 16) {
            // whitespace, or what is not, in the place of a character or in addition to it
            let l = v.len();
            for _ in 0..rng.range(1, 4) {
                let p = spot(rng, v.len());
                let b = if k % 3 == 2 { *rng.pick(&NEAR_WS) } else { *rng.pick(&WS) };
                if rng.one_in(2) {
                    v[p] = b;
                } else {
                    v.insert(p, b);
                }
            }
            f(&v)?;
            if k % 3 == 2 {
                v = valid(rng, l * 3 / 4);
            }
        }
    }
    wrapping_counts(sc, rng, |rng, n, ps| {
        let mut v: Vec<u8> = (0..n).map(|_| *rng.pick(&c.sym)).collect();
        let ws = !rng.one_in(4);
        for &p in ps {
            v[p] = if ws { *rng.pick(&WS) } else { c.rand_bad(&bad, rng) };
        }
        // three lengths out of four are possible ones
        let left = (n - if ws { ps.len() } else { 0 }) % 4;
        if left == 1 && !rng.one_in(4) {
            v.push(*rng.pick(&c.sym));
        }
        f(&v)?;
        // as many more in front
        if ws && ps.len() <= 512 {
            let mut u: Vec<u8> = ps.iter().map(|_| b' ').collect();
            u.extend_from_slice(&v);
            f(&u)?;
        }
        Ok(())
    })?;
    Ok(())
}

/// Inputs of the UUID parsers.
pub fn uuid_text(sc: Scale, rng: &mut Rng, f: Sink) -> R {
    let forms = |rng: &mut Rng| -> [Vec<u8>; 4] {
        let u = rng.bytes(16);
        let case = |rng: &mut Rng, mut v: Vec<u8>| {
            match rng.below(3) {
                0 => {}
                1 => v.make_ascii_uppercase(),
                _ => {
                    for c in &mut v {
                        if rng.one_in(2) {
                            c.make_ascii_uppercase()
                        }
                    }
                }
            }
            v
        };
        let s = spec::uuid_fmt(&u, false, false);
        let s = case(rng, s);
        let h = spec::uuid_fmt(&u, false, true);
        let h = case(rng, h);
        let b = [b"{", &h[..], b"}"].concat();
        let r = [b"urn:uuid:", &h[..]].concat();
        [s, h, b, r]
    };
    let reps = sc.by(2, 20, 1500, 40000);
    for _ in 0..reps {
        for v in forms(rng) {
            f(&v)?;
        }
    }
    // every byte value at every position of each form
    let step = sc.by(97, 7, 1, 1);
    for rep in 0..sc.by(1, 1, 4, 40) {
        for v in forms(rng) {
            for p in 0..v.len() {
                if sc == Tiny && rng.below(9) != 0 {
                    continue;
                }
                let mut w = v.clone();
                let start = if step > 1 { rng.below(step) as u8 } else { 0 };
                for x in (start..=255u8).step_by(step) {
                    w[p] = x;
                    f(&w)?;
                }
                // case of one letter
                w[p] = v[p] ^ 0x20;
                f(&w)?;
            }
        }
        let _ = rep;
    }
    // hyphens moved, dropped, doubled; braces and prefixes mutated; neighbours of a bad byte
    for _ in 0..sc.by(20, 400, 25000, 400000) {
        let mut v = forms(rng)[rng.below(4)].clone();
        match rng.below(9) {
            0 => {
                let a = rng.below(v.len());
                let b = rng.below(v.len());
                v.swap(a, b);
            }
            1 => {
                let a = rng.below(v.len());
                v.remove(a);
            }
            2 => {
                let a = rng.below(v.len() + 1);
                v.insert(a, *rng.pick(b"-{}0aFgG: u"));
            }
            3 => {
                let n = rng.below(81);
                v.resize(n, b'0');
            }
            4 => {
                if let Some(p) = v.iter().position(|&c| c == b'-') {
                    let q = rng.below(v.len());
                    v.swap(p, q);
                }
            }
            5 => {
                for c in &mut v {
                    if *c == b'-' && rng.one_in(2) {
                        *c = *rng.pick(b"-_0a,.\xad");
                    }
                }
            }
            6 => {
                for _ in 0..2 {
                    let p = rng.below(v.len());
                    v[p] = *rng.pick(b"/:@G`g-\x00\x80\xff{}\xb0\xe1");
                }
            }
            7 => {
                // another byte after the prefix or around the braces
                let k = rng.range(0, 9.min(v.len() - 1));
                v[k] = rng.u8();
                let l = v.len() - 1;
                if rng.one_in(2) {
                    v[l] = rng.u8();
                }
            }
            _ => {
                let b = rng.u8();
                let p = rng.below(v.len());
                let q = (p + 16) % v.len();
                v[p] = b;
                v[q] = b;
            }
        }
        f(&v)?;
    }
    for n in 0..=80 {
        let v: Vec<u8> = (0..n).map(|_| *rng.pick(b"0123456789abcdefABCDEF")).collect();
        f(&v)?;
        if sc > Tiny {
            f(&rng.bytes(n))?;
        }
    }
    // the same bad byte with each valid neighbour on each side
    if sc >= Quick {
        let c = code(Sem::HexDec);
        for &b in &c.bad() {
            for &s in b"0123456789abcdefABCDEF" {
                for mut v in forms(rng) {
                    let p = rng.below(v.len());
                    v[p] = b;
                    if p > 0 {
                        v[p - 1] = s;
                    }
                    f(&v)?;
                }
            }
        }
    }
    Ok(())
}

/// 16 arbitrary bytes.
pub fn uuid_bytes(sc: Scale, rng: &mut Rng, f: Sink) -> R {
    for k in 0..sc.by(4u32, 40, 256, 256) {
        for step in sc.by(vec![37], vec![37], vec![0, 1, 37, 255], (0..=255u8).collect()) {
            let v: Vec<u8> = (0..16).map(|i| (k as u8).wrapping_add((i as u8).wrapping_mul(step))).collect();
            f(&v)?;
        }
    }
    for _ in 0..sc.by(4, 100, 10000, 200000) {
        f(&rng.bytes(16))?;
    }
    if sc > Tiny {
        for bit in 0..128 {
            let mut v = vec![0; 16];
            v[bit / 8] = 1 << (bit % 8);
            f(&v)?;
        }
    }
    Ok(())
}

pub fn ascii(sc: Scale, rng: &mut Rng, f: Sink) -> R {
    let asc = |rng: &mut Rng, n: usize| -> Vec<u8> {
        let mut v = rng.bytes(n);
        for x in &mut v {
            *x &= 0x7f;
        }
        v
    };
    if sc == Tiny {
        for n in tiny_lengths(rng, 140, 21) {
            let mut v = asc(rng, n);
            f(&v)?;
            if n > 0 {
                let p = rng.below(n);
                v[p] |= 0x80;
                f(&v)?;
            }
        }
        return Ok(());
    }
    for n in 0..=sc.by(0, 150, 290, 520) {
        f(&vec![0x7f; n])?;
        f(&vec![0; n])?;
        for _ in 0..sc.by(0, 1, 20, 60) {
            f(&asc(rng, n))?;
        }
        if n > 0 {
            f(&vec![0x80; n])?;
            f(&rng.bytes(n))?;
        }
        // one high byte at every position; the arena gives a fresh address each time
        for p in 0..n {
            let reps = if n <= 70 { sc.by(0, 1, 8, 40) } else { sc.by(0, 0, 1, 3) };
            for k in 0..reps.max(if sc == Small && p % 5 == n % 5 { 1 } else { 0 }) {
                let mut v = asc(rng, n);
                v[p] = match k % 4 {
                    0 => 0x80,
                    1 => v[p] | 0x80,
                    2 => 0xff,
                    _ => 0x80 | rng.u8(),
                };
                f(&v)?;
            }
        }
    }
    for n in sc.by(vec![], vec![1000], vec![1000, 4095, 4096, 4097, 65536], vec![4096, 4097, 65536, 1 << 20]) {
        let mut v = asc(rng, n);
        f(&v)?;
        for _ in 0..6 {
            let p = rng.below(n);
            let o = v[p];
            v[p] |= 0x80;
            f(&v)?;
            v[p] = o;
        }
    }
    for n in large_lengths(sc, rng, 1) {
        let mut v = asc(rng, n);
        f(&v)?;
        for _ in 0..sc.by(0, 2, 10, 30) {
            let p = spot(rng, n);
            let o = v[p];
            v[p] |= 0x80;
            f(&v)?;
            v[p] = o;
        }
    }
    wrapping_counts(sc, rng, |rng, n, ps| {
        let mut v = asc(rng, n);
        for &p in ps {
            v[p] |= 0x80;
        }
        f(&v)
    })?;
    // every value
    for x in 0..=255u8 {
        for n in [1usize, 15, 16, 17, 40] {
            if sc == Small && x % 16 != 0 {
                continue;
            }
            let mut v = asc(rng, n);
            let p = rng.below(n);
            v[p] = x;
            f(&v)?;
        }
    }
    Ok(())
}

fn words32(v: &[u32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_ne_bytes()).collect()
}
fn scalar(rng: &mut Rng) -> u32 {
    loop {
        let x = match rng.below(8) {
            0 => rng.below(0x80) as u32,
            1 => 0xD7FF,
            2 => 0xE000,
            3 => 0x10FFFF,
            4 => 0xD000 + rng.below(0x2000) as u32,
            5 => 0xFFFF,
            _ => rng.below(0x110000) as u32,
        };
        if x <= 0x10FFFF && !(0xD800..=0xDFFF).contains(&x) {
            return x;
        }
    }
}
/// 32-bit elements around every boundary of the scalar-value ranges.
pub const UTF32_EDGES: [u32; 34] = [
    0, 1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FE, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDFFE, 0xDFFF, 0xE000, 0xE001,
    0xFFFE, 0xFFFF, 0x10000, 0x1D800, 0x10D800, 0x10DFFF, 0x10FFFE, 0x10FFFF, 0x110000, 0x110001, 0x11D800, 0x7FFFFFFF,
    0x80000000, 0x8000D800, 0xFFFF_FFFF, 0x00D80000, 0x0100_0000, 0x8010_FFFF,
];

pub fn utf32(sc: Scale, rng: &mut Rng, f: Sink) -> R {
    if sc == Tiny {
        for n in 0..20 {
            let mut v: Vec<u32> = (0..n).map(|_| scalar(rng)).collect();
            f(&words32(&v))?;
            if n > 0 {
                let p = rng.below(n);
                v[p] = *rng.pick(&UTF32_EDGES);
                f(&words32(&v))?;
            }
        }
        return Ok(());
    }
    for n in 0..=sc.by(0, 40, 140, 300) {
        for _ in 0..sc.by(0, 1, 6, 20) {
            let v: Vec<u32> = (0..n).map(|_| scalar(rng)).collect();
            f(&words32(&v))?;
        }
        for p in 0..n {
            for &e in &UTF32_EDGES {
                if n > 40 && rng.below(sc.by(1, 1, 6, 1)) != 0 || sc == Small && !rng.one_in(20) {
                    continue;
                }
                let mut v: Vec<u32> = (0..n).map(|_| scalar(rng)).collect();
                v[p] = e;
                f(&words32(&v))?;
            }
        }
    }
    // sweep of the whole first 0x120000 values, in blocks wide enough for every lane to take part
    let step = sc.by(1, 97, 1, 1) as u32;
    let mut x = 0u32;
    while x < 0x120000 {
        // one block per 17 values: valid background, the values under test one at a time near the boundaries and
        // all together elsewhere
        let v: Vec<u32> = (0..17).map(|i| x + i).collect();
        f(&words32(&v))?;
        x += 17 * step;
    }
    for base in [0xD800u32 - 40, 0xDFFF - 40, 0x10FFFF - 40] {
        for d in 0..80 {
            for n in [8usize, 9, 16, 17, 33] {
                if sc == Small && rng.below(10) != 0 {
                    continue;
                }
                let mut v: Vec<u32> = (0..n).map(|_| scalar(rng)).collect();
                let p = rng.below(n);
                v[p] = base + d;
                f(&words32(&v))?;
            }
        }
    }
    // two offenders that might cancel; random 32-bit words; every bit set in a valid word
    for _ in 0..sc.by(0, 200, 30000, 400000) {
        let n = rng.range(1, 60);
        let mut v: Vec<u32> = (0..n).map(|_| scalar(rng)).collect();
        match rng.below(3) {
            0 => {
                let p = rng.below(n);
                v[p] |= 1 << rng.below(32);
            }
            1 => {
                let e = *rng.pick(&UTF32_EDGES);
                let p = rng.below(n);
                v[p] = e;
                let q = rng.below(n);
                v[q] = *rng.pick(&UTF32_EDGES);
            }
            _ => {
                let p = rng.below(n);
                v[p] = rng.u64() as u32;
            }
        }
        f(&words32(&v))?;
    }
    for n in sc.by(vec![], vec![500], vec![1000, 16384], vec![1000, 16384, 1 << 18]) {
        let mut v: Vec<u32> = (0..n).map(|_| scalar(rng)).collect();
        f(&words32(&v))?;
        for _ in 0..6 {
            let p = rng.below(n);
            let o = v[p];
            v[p] = *rng.pick(&[0xD800, 0xDFFF, 0x110000, 0xFFFFFFFF]);
            f(&words32(&v))?;
            v[p] = o;
        }
    }
    for n in large_lengths(sc, rng, 4) {
        let mut v: Vec<u32> = (0..n).map(|_| scalar(rng)).collect();
        f(&words32(&v))?;
        for _ in 0..sc.by(0, 2, 10, 30) {
            let p = spot(rng, n);
            let o = v[p];
            v[p] = *rng.pick(&UTF32_EDGES);
            f(&words32(&v))?;
            v[p] = o;
        }
    }
    wrapping_counts(sc, rng, |rng, n, ps| {
        if n > 1 << 17 {
            return Ok(());
        }
        let mut v: Vec<u32> = (0..n).map(|_| scalar(rng)).collect();
        let bad = if rng.one_in(2) { 0x11_0000 + rng.below(1 << 20) as u32 } else { 0xd800 + rng.below(0x800) as u32 };
        for &p in ps {
            v[p] = bad;
        }
        f(&words32(&v))
    })?;
    Ok(())
}

/// Element arrays of `w` bytes per element.
pub fn elems(w: usize, sc: Scale, rng: &mut Rng, f: Sink) -> R {
    if sc == Tiny {
        for n in 0..20 {
            f(&rng.bytes(n * w))?;
        }
        return f(&rng.bytes(37 * w));
    }
    for n in 0..=sc.by(0, 70, 270, 520) {
        for _ in 0..sc.by(0, 1, 30, 100) {
            f(&rng.bytes(n * w))?;
        }
        let v: Vec<u8> = (0..n * w).map(|i| i as u8).collect();
        f(&v)?;
    }
    for n in sc.by(vec![], vec![600], vec![1023, 1024, 1025, 20000], vec![1023, 1024, 1025, 1 << 18]) {
        f(&rng.bytes(n * w))?;
    }
    for n in large_lengths(sc, rng, w) {
        f(&rng.bytes(n * w))?;
    }
    for n in [7usize, 16, 17, 33] {
        for bit in 0..n * w * 8 {
            if sc == Small && bit % 9 != n % 9 {
                continue;
            }
            let mut v = vec![0; n * w];
            v[bit / 8] = 1 << (bit % 8);
            f(&v)?;
        }
    }
    Ok(())
}

/// The generator of an operation.
pub fn inputs(sem: Sem, sc: Scale, rng: &mut Rng, f: Sink) -> R {
    use Sem::*;
    match sem {
        HexEncL | HexEncU | B64Enc(_) | B32Enc(_) => raw(sc, rng, f),
        HexDec | HexChk | B64Dec(_) | B64Chk(_) | B64Len(_) | B32Dec(_) | B32Chk(_) | B32Len(_) => text(sem, sc, rng, f),
        Forg => forgiving(sc, rng, f),
        UuidParse | UuidParseS | UuidParseH => uuid_text(sc, rng, f),
        UuidFmtSL | UuidFmtSU | UuidFmtHL | UuidFmtHU => uuid_bytes(sc, rng, f),
        IsAscii | FromAscii => ascii(sc, rng, f),
        IsUtf32 => utf32(sc, rng, f),
        Swap16 => elems(2, sc, rng, f),
        Swap32 => elems(4, sc, rng, f),
    }
}
