//! Independent scalar oracles, written from RFC 4648, RFC 4122, the WHATWG infra standard and the Unicode standard.
//! They share no code or table with the library under test.
use alloc::vec::Vec;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B64 {
    Std,
    Url,
    StdNoPad,
    UrlNoPad,
}
pub const B64S: [B64; 4] = [B64::Std, B64::Url, B64::StdNoPad, B64::UrlNoPad];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B32 {
    Std,
    Hex,
    StdNoPad,
    HexNoPad,
}
pub const B32S: [B32; 4] = [B32::Std, B32::Hex, B32::StdNoPad, B32::HexNoPad];

/// What a call computes, independent of how it is called.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sem {
    HexEncL,
    HexEncU,
    HexDec,
    HexChk,
    B64Enc(B64),
    B64Dec(B64),
    B64Chk(B64),
    B64Len(B64),
    Forg,
    B32Enc(B32),
    B32Dec(B32),
    B32Chk(B32),
    B32Len(B32),
    UuidParse,
    UuidParseS,
    UuidParseH,
    UuidFmtSL,
    UuidFmtSU,
    UuidFmtHL,
    UuidFmtHU,
    IsAscii,
    FromAscii,
    IsUtf32,
    Swap16,
    Swap32,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Exp {
    Err,
    Unit,
    Bool(bool),
    Len(usize),
    Bytes(Vec<u8>),
}

fn hexdigit(d: u8, upper: bool) -> u8 {
    if d < 10 {
        48 + d
    } else if upper {
        55 + d
    } else {
        87 + d
    }
}
pub fn hex_encode(s: &[u8], upper: bool) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len() * 2);
    for &b in s {
        v.push(hexdigit(b / 16, upper));
        v.push(hexdigit(b % 16, upper));
    }
    v
}
pub fn hexval(c: u8) -> Option<u8> {
    match c {
        48..=57 => Some(c - 48),
        65..=70 => Some(c - 55),
        97..=102 => Some(c - 87),
        _ => None,
    }
}
pub fn hex_decode(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() & 1 == 1 {
        return None;
    }
    let mut v = Vec::with_capacity(s.len() / 2);
    let mut i = 0;
    while i < s.len() {
        let (h, l) = (hexval(s[i])?, hexval(s[i + 1])?);
        v.push(h * 16 + l);
        i += 2;
    }
    Some(v)
}

fn b64_sym(v: u32, url: bool) -> u8 {
    let v = v as u8;
    match v {
        0..=25 => 65 + v,
        26..=51 => 97 + (v - 26),
        52..=61 => 48 + (v - 52),
        62 => {
            if url {
                45
            } else {
                43
            }
        }
        _ => {
            if url {
                95
            } else {
                47
            }
        }
    }
}
fn b64_val(c: u8, url: bool) -> Option<u32> {
    let v = match c {
        65..=90 => c - 65,
        97..=122 => c - 97 + 26,
        48..=57 => c - 48 + 52,
        45 if url => 62,
        95 if url => 63,
        43 if !url => 62,
        47 if !url => 63,
        _ => return None,
    };
    Some(v as u32)
}
pub fn b64_url(v: B64) -> bool {
    matches!(v, B64::Url | B64::UrlNoPad)
}
pub fn b64_pad(v: B64) -> bool {
    matches!(v, B64::Std | B64::Url)
}
fn b32_hex(v: B32) -> bool {
    matches!(v, B32::Hex | B32::HexNoPad)
}
pub fn b32_pad(v: B32) -> bool {
    matches!(v, B32::Std | B32::Hex)
}
fn b32_sym(v: u32, hex: bool) -> u8 {
    let v = v as u8;
    if hex {
        if v < 10 {
            48 + v
        } else {
            55 + v
        }
    } else if v < 26 {
        65 + v
    } else {
        24 + v
    }
}
fn b32_val(c: u8, hex: bool) -> Option<u32> {
    let v = if hex {
        match c {
            48..=57 => c - 48,
            65..=86 => c - 55,
            _ => return None,
        }
    } else {
        match c {
            65..=90 => c - 65,
            50..=55 => c - 24,
            _ => return None,
        }
    };
    Some(v as u32)
}

/// Bit-stream encoder: `bits` per symbol, padded to a multiple of `group` symbols.
fn enc(s: &[u8], bits: u32, group: usize, pad: bool, sym: impl Fn(u32) -> u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len() * 8 / bits as usize + group);
    let (mut acc, mut n) = (0u32, 0);
    for &b in s {
        acc = (acc << 8) | b as u32;
        n += 8;
        while n >= bits {
            n -= bits;
            v.push(sym((acc >> n) & ((1 << bits) - 1)));
        }
        acc &= (1 << n) - 1;
    }
    if n > 0 {
        v.push(sym((acc << (bits - n)) & ((1 << bits) - 1)));
    }
    if pad {
        while v.len() % group != 0 {
            v.push(61);
        }
    }
    v
}
/// Bit-stream decoder without padding; None for a bad symbol, an impossible length or (if strict) nonzero unused bits.
fn dec(s: &[u8], bits: u32, strict: bool, val: impl Fn(u8) -> Option<u32>) -> Option<Vec<u8>> {
    let mut v = Vec::with_capacity(s.len() * bits as usize / 8);
    let (mut acc, mut n) = (0u32, 0);
    for &c in s {
        acc = (acc << bits) | val(c)?;
        n += bits;
        if n >= 8 {
            n -= 8;
            v.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    // a whole unused symbol is an impossible length
    if n >= bits || (strict && acc != 0) {
        return None;
    }
    Some(v)
}
fn strip_pad(s: &[u8], group: usize, max: usize) -> Option<&[u8]> {
    if s.len() % group != 0 {
        return None;
    }
    let mut k = 0;
    while k < max && k < s.len() && s[s.len() - 1 - k] == 61 {
        k += 1;
    }
    Some(&s[..s.len() - k])
}
pub fn b64_encode(s: &[u8], v: B64) -> Vec<u8> {
    enc(s, 6, 4, b64_pad(v), |x| b64_sym(x, b64_url(v)))
}
pub fn b64_decode(s: &[u8], v: B64) -> Option<Vec<u8>> {
    let body = if b64_pad(v) { strip_pad(s, 4, 2)? } else { s };
    let out = dec(body, 6, true, |c| b64_val(c, b64_url(v)))?;
    // padding must complete the last group and no more: guaranteed by len%4==0 and the body's own length
    Some(out)
}
pub fn b32_encode(s: &[u8], v: B32) -> Vec<u8> {
    enc(s, 5, 8, b32_pad(v), |x| b32_sym(x, b32_hex(v)))
}
pub fn b32_decode(s: &[u8], v: B32) -> Option<Vec<u8>> {
    let body = if b32_pad(v) { strip_pad(s, 8, 6)? } else { s };
    dec(body, 5, true, |c| b32_val(c, b32_hex(v)))
}
pub fn b64_charset(v: B64) -> Vec<u8> {
    (0..64).map(|x| b64_sym(x, b64_url(v))).collect()
}
pub fn b32_charset(v: B32) -> Vec<u8> {
    (0..32).map(|x| b32_sym(x, b32_hex(v))).collect()
}
/// <https://infra.spec.whatwg.org/#forgiving-base64-decode>
pub fn forgiving(s: &[u8]) -> Option<Vec<u8>> {
    let mut d: Vec<u8> = Vec::with_capacity(s.len());
    for &c in s {
        if !matches!(c, 9 | 10 | 12 | 13 | 32) {
            d.push(c);
        }
    }
    if d.len() % 4 == 0 {
        for _ in 0..2 {
            if d.last() == Some(&61) {
                d.pop();
            }
        }
    }
    if d.len() % 4 == 1 {
        return None;
    }
    dec(&d, 6, false, |c| b64_val(c, false))
}
fn is_hyphen_pos(i: usize) -> bool {
    i == 8 || i == 13 || i == 18 || i == 23
}
pub fn uuid_hyph(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() != 36 {
        return None;
    }
    let mut d = Vec::new();
    for (i, &c) in s.iter().enumerate() {
        if is_hyphen_pos(i) {
            if c != 45 {
                return None;
            }
        } else {
            d.push(c);
        }
    }
    hex_decode(&d)
}
pub fn uuid_simple(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() != 32 {
        return None;
    }
    hex_decode(s)
}
pub fn uuid_any(s: &[u8]) -> Option<Vec<u8>> {
    match s.len() {
        32 => uuid_simple(s),
        36 => uuid_hyph(s),
        38 => {
            if s[0] == 123 && s[37] == 125 {
                uuid_hyph(&s[1..37])
            } else {
                None
            }
        }
        45 => {
            if &s[..9] == b"urn:uuid:" {
                uuid_hyph(&s[9..])
            } else {
                None
            }
        }
        _ => None,
    }
}
pub fn uuid_fmt(s: &[u8], upper: bool, hyph: bool) -> Vec<u8> {
    let mut v = Vec::new();
    for (i, &b) in s.iter().enumerate() {
        if hyph && matches!(i, 4 | 6 | 8 | 10) {
            v.push(45);
        }
        v.push(hexdigit(b / 16, upper));
        v.push(hexdigit(b % 16, upper));
    }
    v
}
fn u32_at(s: &[u8], i: usize) -> u32 {
    u32::from_ne_bytes([s[i], s[i + 1], s[i + 2], s[i + 3]])
}
pub fn utf32(s: &[u8]) -> bool {
    let mut i = 0;
    while i + 4 <= s.len() {
        let x = u32_at(s, i);
        if x > 0x10FFFF || (0xD800..=0xDFFF).contains(&x) {
            return false;
        }
        i += 4;
    }
    true
}
fn swap(s: &[u8], w: usize) -> Vec<u8> {
    let mut v = s[..s.len() / w * w].to_vec();
    for c in v.chunks_mut(w) {
        c.reverse();
    }
    v
}

fn ob(o: Option<Vec<u8>>) -> Exp {
    match o {
        Some(v) => Exp::Bytes(v),
        None => Exp::Err,
    }
}
fn ou(b: bool) -> Exp {
    if b {
        Exp::Unit
    } else {
        Exp::Err
    }
}

/// The result of the operation given enough destination space.
pub fn expect(sem: Sem, s: &[u8]) -> Exp {
    use Sem::*;
    match sem {
        HexEncL => Exp::Bytes(hex_encode(s, false)),
        HexEncU => Exp::Bytes(hex_encode(s, true)),
        HexDec => ob(hex_decode(s)),
        HexChk => ou(s.iter().all(|&c| hexval(c).is_some())),
        B64Enc(v) => Exp::Bytes(b64_encode(s, v)),
        B64Dec(v) => ob(b64_decode(s, v)),
        B64Chk(v) => ou(b64_decode(s, v).is_some()),
        // only specified for strings that decode
        B64Len(v) => match b64_decode(s, v) {
            Some(d) => Exp::Len(d.len()),
            None => Exp::Unit,
        },
        Forg => ob(forgiving(s)),
        B32Enc(v) => Exp::Bytes(b32_encode(s, v)),
        B32Dec(v) => ob(b32_decode(s, v)),
        B32Chk(v) => ou(b32_decode(s, v).is_some()),
        B32Len(v) => match b32_decode(s, v) {
            Some(d) => Exp::Len(d.len()),
            None => Exp::Unit,
        },
        UuidParse => ob(uuid_any(s)),
        UuidParseS => ob(uuid_simple(s)),
        UuidParseH => ob(uuid_hyph(s)),
        UuidFmtSL => Exp::Bytes(uuid_fmt(s, false, false)),
        UuidFmtSU => Exp::Bytes(uuid_fmt(s, true, false)),
        UuidFmtHL => Exp::Bytes(uuid_fmt(s, false, true)),
        UuidFmtHU => Exp::Bytes(uuid_fmt(s, true, true)),
        IsAscii => Exp::Bool(s.iter().all(|&b| b <= 127)),
        FromAscii => {
            if s.iter().all(|&b| b <= 127) {
                Exp::Bytes(s.to_vec())
            } else {
                Exp::Err
            }
        }
        IsUtf32 => Exp::Bool(utf32(s)),
        Swap16 => Exp::Bytes(swap(s, 2)),
        Swap32 => Exp::Bytes(swap(s, 4)),
    }
}

/// Element size of the source (and destination) slice.
pub fn elem(sem: Sem) -> usize {
    match sem {
        Sem::IsUtf32 | Sem::Swap32 => 4,
        Sem::Swap16 => 2,
        _ => 1,
    }
}
/// Destination bytes the call needs to succeed, from the source and the full-space result.
pub fn need(sem: Sem, s: &[u8], e: &Exp) -> usize {
    match (sem, e) {
        (Sem::Forg, _) => s.len(),
        (_, Exp::Bytes(b)) => b.len(),
        // an invalid input is an error whatever the destination
        _ => s.len(),
    }
}
