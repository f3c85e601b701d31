//! Inputs made of one block over and over: their expected results repeat as well.
use crate::rng::Rng;
use crate::spec::{self, Exp, Sem};
use alloc::vec;
use alloc::vec::Vec;

/// Source bytes per block of an encoder: whole pages after every one of the encodings.
pub const RAW: usize = 15 << 16;

pub struct Case {
    /// source block, destination block (empty if none)
    pub src: Vec<u8>,
    pub dst: Vec<u8>,
    pub src_tail: Vec<u8>,
    pub dst_tail: Vec<u8>,
    pub blocks: usize,
}
impl Case {
    pub fn src_len(&self) -> usize {
        self.blocks * self.src.len() + self.src_tail.len()
    }
    pub fn dst_len(&self) -> usize {
        self.blocks * self.dst.len() + self.dst_tail.len()
    }
}

fn bytes_of(sem: Sem, s: &[u8]) -> Vec<u8> {
    match spec::expect(sem, s) {
        Exp::Bytes(b) => b,
        _ => Vec::new(),
    }
}

/// An input of `n` units: bytes of data, or elements.
pub fn case(sem: Sem, n: usize, rng: &mut Rng) -> Case {
    let (mut blocks, mut rest) = (n / RAW, n % RAW);
    let whole = |rng: &mut Rng, n: usize| {
        let p = rng.bytes(15 * 257);
        (0..n).map(|k| p[k % p.len()]).collect::<Vec<u8>>()
    };
    let (src, src_tail) = match sem {
        Sem::IsAscii | Sem::FromAscii => {
            let f = |v: Vec<u8>| v.into_iter().map(|c| c & 127).collect::<Vec<u8>>();
            (f(whole(rng, RAW)), f(whole(rng, rest)))
        }
        Sem::IsUtf32 | Sem::Swap16 | Sem::Swap32 => {
            let e = spec::elem(sem);
            (blocks, rest) = (n / (RAW / 4), n % (RAW / 4));
            let mut f = |n: usize| match sem {
                Sem::IsUtf32 => (0..n).flat_map(|k| [(k * 7) as u8, (k >> 5) as u8, (k % 17) as u8, 0]).map(|c| c & 0xdf & 0xd7).collect::<Vec<u8>>(),
                _ => whole(rng, n * e),
            };
            (f(RAW / 4), f(rest))
        }
        Sem::HexEncL | Sem::HexEncU | Sem::B64Enc(_) | Sem::B32Enc(_) => (whole(rng, RAW), whole(rng, rest)),
        _ => {
            let c = crate::gen::code(sem);
            let (a, b) = (whole(rng, RAW), whole(rng, rest));
            (c.valid(&a, rng), c.valid(&b, rng))
        }
    };
    let has_dst = !matches!(sem, Sem::IsAscii | Sem::FromAscii | Sem::IsUtf32 | Sem::HexChk | Sem::B64Chk(_) | Sem::B32Chk(_) | Sem::B64Len(_) | Sem::B32Len(_));
    let (dst, dst_tail) = if has_dst { (bytes_of(sem, &src), bytes_of(sem, &src_tail)) } else { (vec![], vec![]) };
    Case { src, dst, src_tail, dst_tail, blocks }
}

pub fn bad_byte(sem: Sem) -> Option<u8> {
    match sem {
        Sem::IsAscii | Sem::FromAscii => Some(0x80),
        Sem::IsUtf32 | Sem::B64Dec(_) | Sem::B32Dec(_) | Sem::B64Chk(_) | Sem::B32Chk(_) | Sem::HexDec | Sem::HexChk | Sem::Forg => Some(0xff),
        _ => None,
    }
}

