//! Uniform runner over every public entry point.
use crate::rng::Rng;
use crate::spec::{self, Exp, Sem, B32, B64};
use alloc::boxed::Box;
use alloc::string::String;
use alloc::vec::Vec;
use core::mem::MaybeUninit;
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use hex_simd::{AsOut, AsciiCase, Out};

/// How the operation is called.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// no destination
    Plain,
    /// no destination, raw pointer
    PlainRaw,
    /// `Out<[u8]>` destination
    Slice,
    /// `Out<[u8]>`, returns str
    AsStr,
    /// raw pointers
    Raw,
    /// in place
    Inplace,
    /// raw pointers, dst == src
    RawInplace,
    /// convenience method returning Vec / String
    Conv,
    /// `*_type::<Vec<u8>>`
    TypeVec,
    /// `*_type::<Box<[u8]>>`
    TypeBox,
    /// `*_type::<Box<str>>`
    TypeBoxStr,
    /// `*_type::<String>`
    TypeString,
    /// `*_append` to Vec
    AppVec,
    /// `*_append` to String
    AppString,
    /// `UuidExt`
    Ext,
}
use Mode::*;

impl Mode {
    pub fn has_dst(self) -> bool {
        matches!(self, Slice | AsStr | Raw)
    }
    pub fn inplace(self) -> bool {
        matches!(self, Inplace | RawInplace)
    }
    pub fn allocates(self) -> bool {
        matches!(self, Conv | TypeVec | TypeBox | TypeBoxStr | TypeString | AppVec | AppString)
    }
}

pub fn modes(sem: Sem) -> &'static [Mode] {
    match sem {
        Sem::HexEncL | Sem::HexEncU => {
            &[Slice, AsStr, Raw, Conv, TypeVec, TypeBox, TypeBoxStr, TypeString, AppVec, AppString]
        }
        Sem::HexDec => &[Slice, Raw, Inplace, RawInplace, Conv, TypeVec, TypeBox, AppVec],
        Sem::HexChk => &[Plain, PlainRaw],
        Sem::B64Enc(_) | Sem::B32Enc(_) => {
            &[Slice, AsStr, Conv, TypeVec, TypeBox, TypeBoxStr, TypeString, AppVec, AppString]
        }
        Sem::B64Dec(_) | Sem::B32Dec(_) => &[Slice, Inplace, Conv, TypeVec, TypeBox, AppVec],
        Sem::B64Chk(_) | Sem::B32Chk(_) | Sem::B64Len(_) | Sem::B32Len(_) => &[Plain],
        Sem::Forg => &[Slice, Inplace, Conv],
        Sem::UuidParse | Sem::UuidParseS | Sem::UuidParseH => if cfg!(feature = "ext") { &[Slice, Ext] } else { &[Slice] },
        Sem::UuidFmtSL | Sem::UuidFmtSU | Sem::UuidFmtHL | Sem::UuidFmtHU => if cfg!(feature = "ext") { &[Slice, Ext] } else { &[Slice] },
        Sem::IsAscii | Sem::FromAscii | Sem::IsUtf32 => &[Plain],
        Sem::Swap16 | Sem::Swap32 => &[Slice, Inplace],
    }
}

pub fn all_sems() -> Vec<Sem> {
    use Sem::*;
    let mut v = alloc::vec![HexEncL, HexEncU, HexDec, HexChk, Forg];
    for x in spec::B64S {
        v.extend([B64Enc(x), B64Dec(x), B64Chk(x), B64Len(x)]);
    }
    for x in spec::B32S {
        v.extend([B32Enc(x), B32Dec(x), B32Chk(x), B32Len(x)]);
    }
    v.extend([
        UuidParse, UuidParseS, UuidParseH, UuidFmtSL, UuidFmtSU, UuidFmtHL, UuidFmtHU, IsAscii, FromAscii, IsUtf32,
        Swap16, Swap32,
    ]);
    v
}

/// What a call did.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Got {
    Err,
    Unit,
    Bool(bool),
    Len(usize),
    /// returned slice: start address, byte length
    At(usize, usize),
    Owned(Vec<u8>),
    /// violated side condition
    Bad(&'static str),
}

/// The call in flight, for panic and crash reports (single-threaded suites only).
pub static CUR_SRC: AtomicUsize = AtomicUsize::new(0);
pub static CUR_LEN: AtomicUsize = AtomicUsize::new(0);
pub static CUR_DST: AtomicUsize = AtomicUsize::new(0);
pub static CUR_DLEN: AtomicUsize = AtomicUsize::new(0);
pub static CUR_SEM: AtomicUsize = AtomicUsize::new(0);
pub static CUR_MODE: AtomicUsize = AtomicUsize::new(0);
/// A static text describing the current activity of suites that do not go through `run`.
pub static CUR_WHAT: core::sync::atomic::AtomicPtr<&'static str> =
    core::sync::atomic::AtomicPtr::new(core::ptr::null_mut());

pub fn what(s: &'static &'static str) {
    CUR_WHAT.store(s as *const &'static str as *mut &'static str, Relaxed);
}

/// Calls started so far, for the progress watchdog.
pub static CALLS: AtomicUsize = AtomicUsize::new(0);

pub fn note(sem: Sem, mode: Mode, s: &[u8], dst: *mut u8, m: usize) {
    CUR_SEM.store(sem_index_fast(sem) as usize, Relaxed);
    CUR_MODE.store(mode as usize, Relaxed);
    CUR_DST.store(dst as usize, Relaxed);
    CUR_DLEN.store(m, Relaxed);
    CUR_SRC.store(s.as_ptr() as usize, Relaxed);
    CUR_LEN.store(s.len(), Relaxed);
    CALLS.fetch_add(1, Relaxed);
}

pub fn b64(v: B64) -> base64_simd::Base64 {
    match v {
        B64::Std => base64_simd::STANDARD,
        B64::Url => base64_simd::URL_SAFE,
        B64::StdNoPad => base64_simd::STANDARD_NO_PAD,
        B64::UrlNoPad => base64_simd::URL_SAFE_NO_PAD,
    }
}
pub fn b32(v: B32) -> base32_simd::Base32 {
    match v {
        B32::Std => base32_simd::BASE32,
        B32::Hex => base32_simd::BASE32HEX,
        B32::StdNoPad => base32_simd::BASE32_NO_PAD,
        B32::HexNoPad => base32_simd::BASE32HEX_NO_PAD,
    }
}

fn unit<E>(r: Result<(), E>) -> Got {
    match r {
        Ok(()) => Got::Unit,
        Err(_) => Got::Err,
    }
}
fn at<E>(r: Result<&mut [u8], E>) -> Got {
    match r {
        Ok(s) => Got::At(s.as_ptr() as usize, s.len()),
        Err(_) => Got::Err,
    }
}
fn at_str<E>(r: Result<&mut str, E>) -> Got {
    match r {
        Ok(s) => Got::At(s.as_ptr() as usize, s.len()),
        Err(_) => Got::Err,
    }
}
fn own<E>(r: Result<Vec<u8>, E>) -> Got {
    match r {
        Ok(v) => Got::Owned(v),
        Err(_) => Got::Err,
    }
}
fn ownb<E>(r: Result<Box<[u8]>, E>) -> Got {
    match r {
        Ok(v) => Got::Owned(v.into_vec()),
        Err(_) => Got::Err,
    }
}

/// State of the target of an append: existing content and spare capacity.
#[derive(Clone, Debug, Default)]
pub struct Prior {
    pub text: Vec<u8>,
    pub spare: usize,
}

impl Prior {
    fn vec(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.text.len() + self.spare);
        v.extend_from_slice(&self.text);
        v
    }
    fn done(&self, v: Vec<u8>, ok: bool) -> Got {
        let n = self.text.len();
        if ok {
            if v.len() < n || v[..n] != self.text[..] {
                return Got::Bad("append changed the existing contents");
            }
            Got::Owned(if n == 0 { v } else { v[n..].to_vec() })
        } else {
            if v[..] != self.text[..] {
                return Got::Bad("append changed the target although it returned Err");
            }
            Got::Err
        }
    }
}

/// Calls one entry point on caller-provided memory.
///
/// # Safety
/// `src` valid for reads (and writes, for in-place modes) of `n` bytes, aligned to `elem(sem)`; `dst` valid for writes
/// of `m` bytes with the same alignment when the mode has a destination; the two do not overlap.
pub unsafe fn run(sem: Sem, mode: Mode, src: *mut u8, n: usize, dst: *mut u8, m: usize, prior: &Prior) -> Got {
    use core::slice::{from_raw_parts, from_raw_parts_mut};
    let s = || -> &[u8] { from_raw_parts(src.cast_const(), n) };
    let s_mut = || -> &mut [u8] { from_raw_parts_mut(src, n) };
    // an exclusive slice over possibly uninitialised bytes, as a caller with a fresh buffer would have
    let d = || -> Out<'_, [u8]> {
        let u: &mut [MaybeUninit<u8>] = from_raw_parts_mut(dst.cast::<MaybeUninit<u8>>(), m);
        u.as_out()
    };
    match sem {
        Sem::HexEncL | Sem::HexEncU => {
            let c = if sem == Sem::HexEncL { AsciiCase::Lower } else { AsciiCase::Upper };
            use hex_simd as h;
            match mode {
                Slice => at(h::encode(s(), d(), c)),
                AsStr => at_str(h::encode_as_str(s(), d(), c)),
                Raw => Got::At(dst as usize, h::encode_raw(src, n, dst, c)),
                Conv => Got::Owned(h::encode_to_string(s(), c).into_bytes()),
                TypeVec => Got::Owned(h::encode_type::<Vec<u8>>(s(), c)),
                TypeBox => Got::Owned(h::encode_type::<Box<[u8]>>(s(), c).into_vec()),
                TypeBoxStr => Got::Owned(String::from(h::encode_type::<Box<str>>(s(), c)).into_bytes()),
                TypeString => Got::Owned(h::encode_type::<String>(s(), c).into_bytes()),
                AppVec => {
                    let mut v = prior.vec();
                    h::encode_append(s(), &mut v, c);
                    prior.done(v, true)
                }
                AppString => {
                    let mut v = String::from_utf8(prior.vec()).unwrap();
                    h::encode_append(s(), &mut v, c);
                    prior.done(v.into_bytes(), true)
                }
                _ => unreachable!(),
            }
        }
        Sem::HexDec => {
            use hex_simd as h;
            match mode {
                Slice => at(h::decode(s(), d())),
                Raw => match h::decode_raw(src, n, dst) {
                    Ok(k) => Got::At(dst as usize, k),
                    Err(_) => Got::Err,
                },
                RawInplace => match h::decode_raw(src, n, src) {
                    Ok(k) => Got::At(src as usize, k),
                    Err(_) => Got::Err,
                },
                Inplace => at(h::decode_inplace(s_mut())),
                Conv => own(h::decode_to_vec(s())),
                TypeVec => own(h::decode_type::<Vec<u8>>(s())),
                TypeBox => ownb(h::decode_type::<Box<[u8]>>(s())),
                AppVec => {
                    let mut v = prior.vec();
                    let r = h::decode_append(s(), &mut v);
                    prior.done(v, r.is_ok())
                }
                _ => unreachable!(),
            }
        }
        Sem::HexChk => match mode {
            Plain => unit(hex_simd::check(s())),
            PlainRaw => unit(hex_simd::check_raw(src, n)),
            _ => unreachable!(),
        },
        Sem::B64Enc(v) => {
            let b = b64(v);
            match mode {
                Slice => at(b.encode(s(), d())),
                AsStr => at_str(b.encode_as_str(s(), d())),
                Conv => Got::Owned(b.encode_to_string(s()).into_bytes()),
                TypeVec => Got::Owned(b.encode_type::<Vec<u8>>(s())),
                TypeBox => Got::Owned(b.encode_type::<Box<[u8]>>(s()).into_vec()),
                TypeBoxStr => Got::Owned(String::from(b.encode_type::<Box<str>>(s())).into_bytes()),
                TypeString => Got::Owned(b.encode_type::<String>(s()).into_bytes()),
                AppVec => {
                    let mut v = prior.vec();
                    b.encode_append(s(), &mut v);
                    prior.done(v, true)
                }
                AppString => {
                    let mut v = String::from_utf8(prior.vec()).unwrap();
                    b.encode_append(s(), &mut v);
                    prior.done(v.into_bytes(), true)
                }
                _ => unreachable!(),
            }
        }
        Sem::B64Dec(v) => {
            let b = b64(v);
            match mode {
                Slice => at(b.decode(s(), d())),
                Inplace => at(b.decode_inplace(s_mut())),
                Conv => own(b.decode_to_vec(s())),
                TypeVec => own(b.decode_type::<Vec<u8>>(s())),
                TypeBox => ownb(b.decode_type::<Box<[u8]>>(s())),
                AppVec => {
                    let mut v = prior.vec();
                    let r = b.decode_append(s(), &mut v);
                    prior.done(v, r.is_ok())
                }
                _ => unreachable!(),
            }
        }
        Sem::B64Chk(v) => unit(b64(v).check(s())),
        Sem::B64Len(v) => match b64(v).decoded_length(s()) {
            Ok(k) => Got::Len(k),
            Err(_) => Got::Err,
        },
        Sem::Forg => match mode {
            Slice => at(base64_simd::forgiving_decode(s(), d())),
            Inplace => at(base64_simd::forgiving_decode_inplace(s_mut())),
            Conv => own(base64_simd::forgiving_decode_to_vec(s())),
            _ => unreachable!(),
        },
        Sem::B32Enc(v) => {
            let b = b32(v);
            match mode {
                Slice => at(b.encode(s(), d())),
                AsStr => at_str(b.encode_as_str(s(), d())),
                Conv => Got::Owned(b.encode_to_string(s()).into_bytes()),
                TypeVec => Got::Owned(b.encode_type::<Vec<u8>>(s())),
                TypeBox => Got::Owned(b.encode_type::<Box<[u8]>>(s()).into_vec()),
                TypeBoxStr => Got::Owned(String::from(b.encode_type::<Box<str>>(s())).into_bytes()),
                TypeString => Got::Owned(b.encode_type::<String>(s()).into_bytes()),
                AppVec => {
                    let mut v = prior.vec();
                    b.encode_append(s(), &mut v);
                    prior.done(v, true)
                }
                AppString => {
                    let mut v = String::from_utf8(prior.vec()).unwrap();
                    b.encode_append(s(), &mut v);
                    prior.done(v.into_bytes(), true)
                }
                _ => unreachable!(),
            }
        }
        Sem::B32Dec(v) => {
            let b = b32(v);
            match mode {
                Slice => at(b.decode(s(), d())),
                Inplace => at(b.decode_inplace(s_mut())),
                Conv => own(b.decode_to_vec(s())),
                TypeVec => own(b.decode_type::<Vec<u8>>(s())),
                TypeBox => ownb(b.decode_type::<Box<[u8]>>(s())),
                AppVec => {
                    let mut v = prior.vec();
                    let r = b.decode_append(s(), &mut v);
                    prior.done(v, r.is_ok())
                }
                _ => unreachable!(),
            }
        }
        Sem::B32Chk(v) => unit(b32(v).check(s())),
        Sem::B32Len(v) => match b32(v).decoded_length(s()) {
            Ok(k) => Got::Len(k),
            Err(_) => Got::Err,
        },
        Sem::UuidParse | Sem::UuidParseS | Sem::UuidParseH => match mode {
            Slice => {
                assert_eq!(m, 16);
                let o: Out<'_, [u8; 16]> = (*dst.cast::<MaybeUninit<[u8; 16]>>()).as_out();
                let r = match sem {
                    Sem::UuidParse => uuid_simd::parse(s(), o),
                    Sem::UuidParseS => uuid_simd::parse_simple(s(), o),
                    _ => uuid_simd::parse_hyphenated(s(), o),
                };
                at(r.map(|a| &mut a[..]))
            }
            #[cfg(feature = "ext")]
            Ext => {
                use uuid_simd::UuidExt as E;
                let r = match sem {
                    Sem::UuidParse => <uuid::Uuid as E>::parse(s()),
                    Sem::UuidParseS => <uuid::Uuid as E>::parse_simple(s()),
                    _ => <uuid::Uuid as E>::parse_hyphenated(s()),
                };
                own(r.map(|u| u.as_bytes().to_vec()))
            }
            _ => unreachable!(),
        },
        Sem::UuidFmtSL | Sem::UuidFmtSU | Sem::UuidFmtHL | Sem::UuidFmtHU => {
            assert_eq!(n, 16);
            let u: &[u8; 16] = &*src.cast::<[u8; 16]>();
            #[cfg(feature = "ext")]
            if mode == Ext {
                use uuid_simd::UuidExt as E;
                let u = uuid::Uuid::from_bytes(*u);
                let t = match sem {
                    Sem::UuidFmtSL => alloc::format!("{}", E::format_simple(&u)),
                    Sem::UuidFmtSU => alloc::format!("{:X}", E::format_simple(&u)),
                    Sem::UuidFmtHL => alloc::format!("{}", E::format_hyphenated(&u)),
                    _ => alloc::format!("{:X}", E::format_hyphenated(&u)),
                };
                return Got::Owned(t.into_bytes());
            }
            let c = if matches!(sem, Sem::UuidFmtSL | Sem::UuidFmtHL) { AsciiCase::Lower } else { AsciiCase::Upper };
            let s: &mut [u8] = if matches!(sem, Sem::UuidFmtSL | Sem::UuidFmtSU) {
                assert_eq!(m, 32);
                uuid_simd::format_simple(u, (*dst.cast::<MaybeUninit<[u8; 32]>>()).as_out(), c)
            } else {
                assert_eq!(m, 36);
                uuid_simd::format_hyphenated(u, (*dst.cast::<MaybeUninit<[u8; 36]>>()).as_out(), c)
            };
            Got::At(s.as_ptr() as usize, s.len())
        }
        Sem::IsAscii => Got::Bool(unicode_simd::is_ascii(s())),
        Sem::FromAscii => match unicode_simd::from_ascii(s()) {
            Some(t) => Got::At(t.as_ptr() as usize, t.len()),
            None => Got::Err,
        },
        Sem::IsUtf32 => Got::Bool(unicode_simd::is_utf32le(from_raw_parts(src.cast::<u32>(), n / 4))),
        Sem::Swap16 => match mode {
            Slice => {
                let o: &mut [MaybeUninit<u16>] = from_raw_parts_mut(dst.cast(), m / 2);
                let r = unicode_simd::utf16_swap_endianness(from_raw_parts(src.cast::<u16>(), n / 2), o.as_out());
                Got::At(r.as_ptr() as usize, r.len() * 2)
            }
            _ => {
                unicode_simd::utf16_swap_endianness_inplace(from_raw_parts_mut(src.cast::<u16>(), n / 2));
                Got::At(src as usize, n / 2 * 2)
            }
        },
        Sem::Swap32 => match mode {
            Slice => {
                let o: &mut [MaybeUninit<u32>] = from_raw_parts_mut(dst.cast(), m / 4);
                let r = unicode_simd::utf32_swap_endianness(from_raw_parts(src.cast::<u32>(), n / 4), o.as_out());
                Got::At(r.as_ptr() as usize, r.len() * 4)
            }
            _ => {
                unicode_simd::utf32_swap_endianness_inplace(from_raw_parts_mut(src.cast::<u32>(), n / 4));
                Got::At(src as usize, n / 4 * 4)
            }
        },
    }
}

/// Where source and destination live.
pub trait Mem {
    /// Places a copy of `data`; the address is a multiple of `elem`.
    fn src(&mut self, data: &[u8], elem: usize, rng: &mut Rng) -> *mut u8;
    /// A destination of `len` bytes.
    fn dst(&mut self, len: usize, elem: usize, rng: &mut Rng) -> *mut u8;
    /// After the call: has anything around the buffers changed?
    fn check(&mut self) -> Result<(), &'static str>;
}

pub const SLACK: usize = 192;

/// Buffers inside larger ones at random offsets, with canaries around them.
pub struct Arena {
    a: Vec<u8>,
    b: Vec<u8>,
    sa: (usize, usize),
    sb: (usize, usize),
    /// destination next to the source, in the same block
    near: Option<(usize, usize)>,
    /// free bytes on both sides of the source
    room: usize,
    pub neighbours: u64,
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            a: Vec::new(),
            b: Vec::new(),
            sa: (0, 0),
            sb: (0, 0),
            near: None,
            room: 0,
            neighbours: 0,
        }
    }
}
impl Arena {
    /// Sets the whole destination arena to its canary, so that writes inside a destination can be told.
    pub fn fill_dst(&mut self) {
        self.b.fill(0xA5);
    }
}
impl Default for Arena {
    fn default() -> Self {
        Self::new()
    }
}

const PAGE: usize = 4096;
/// A place at or behind `min` for `len` bytes: any alignment; one in four at or across the end of a page.
fn offset(base: usize, min: usize, len: usize, elem: usize, rng: &mut Rng) -> usize {
    let mut off = min + rng.below(64);
    if rng.one_in(4) {
        let want = PAGE - rng.below((len + 64).min(PAGE));
        off = min + (want.wrapping_sub(base + min)) % PAGE;
    }
    off + (elem - (base + off) % elem) % elem
}
fn place(v: &mut Vec<u8>, len: usize, elem: usize, canary: u8, rng: &mut Rng) -> usize {
    let total = len + SLACK * 2 + PAGE;
    if v.len() < total {
        v.resize(total, canary);
    }
    let off = offset(v.as_ptr() as usize, 64, len, elem, rng);
    let end = off + len;
    v[off - 64..end + 64].fill(canary);
    off
}
fn intact(v: &[u8], (off, len): (usize, usize), canary: u8) -> bool {
    v[off - 64..off].iter().all(|&b| b == canary) && v[off + len..off + len + 64].iter().all(|&b| b == canary)
}

impl Mem for Arena {
    fn src(&mut self, data: &[u8], elem: usize, rng: &mut Rng) -> *mut u8 {
        // (one draw per buffer, whatever the addresses are: callers compare runs)
        let rng = &mut Rng::new(rng.u64());
        let n = data.len();
        self.near = None;
        // one in four may get its destination as a neighbour
        self.room = if n <= 1 << 16 && rng.one_in(4) { 2 * n + 256 } else { 0 };
        let total = n + 2 * self.room + SLACK * 2 + PAGE;
        if self.a.len() < total {
            self.a.resize(total, 0xC3);
        }
        let off = offset(self.a.as_ptr() as usize, self.room + 64, n, elem, rng);
        self.a[off - 64..off + n + 64].fill(0xC3);
        self.a[off..off + n].copy_from_slice(data);
        self.sa = (off, n);
        unsafe { self.a.as_mut_ptr().add(off) }
    }
    fn dst(&mut self, len: usize, elem: usize, rng: &mut Rng) -> *mut u8 {
        let rng = &mut Rng::new(rng.u64());
        if self.room > 0 {
            let (s, n) = self.sa;
            // touching it, or a little away
            let gap = if rng.one_in(2) { 0 } else { rng.below(65) };
            let off = if rng.one_in(2) {
                let o = s + n + gap;
                o + (elem - (self.a.as_ptr() as usize + o) % elem) % elem
            } else {
                let o = s.saturating_sub(len + gap);
                o - ((self.a.as_ptr() as usize + o) % elem).min(o)
            };
            let end = off + len;
            let apart = end <= s || off >= s + n;
            if apart && off >= 64 && end + 64 <= self.a.len() {
                let a = &mut self.a;
                // everything from 64 bytes before the first to 64 bytes after the last, but the source
                let (lo, hi) = (off.min(s) - 64, end.max(s + n) + 64);
                if hi <= a.len() {
                    a[lo..s].fill(0xC3);
                    a[s + n..hi].fill(0xC3);
                    a[off..end].fill(0xA5);
                    self.near = Some((off, len));
                    self.neighbours += 1;
                    return unsafe { a.as_mut_ptr().add(off) };
                }
            }
        }
        let off = place(&mut self.b, len, elem, 0xA5, rng);
        self.sb = (off, len);
        unsafe { self.b.as_mut_ptr().add(off) }
    }
    fn check(&mut self) -> Result<(), &'static str> {
        let (s, n) = self.sa;
        if let Some((d, m)) = self.near {
            let (lo, hi) = (d.min(s) - 64, (d + m).max(s + n) + 64);
            let before = d + m <= s;
            let (a, b, c) = if before { (d, d + m, s) } else { (s, s + n, d) };
            let last = if before { s + n } else { d + m };
            let clean = |r: core::ops::Range<usize>| self.a[r].iter().all(|&x| x == 0xC3);
            if !clean(lo..a) || !clean(b..c) || !clean(last..hi) {
                return Err("memory around neighbouring buffers was modified");
            }
        } else if !intact(&self.a, self.sa, 0xC3) {
            return Err("memory around the source buffer was modified");
        }
        if self.sb.0 != 0 && !intact(&self.b, self.sb, 0xA5) {
            return Err("memory around the destination was modified");
        }
        Ok(())
    }
}

/// Exact-size heap allocations (fresh and uninitialised destination), for interpreters and sanitizers.
#[derive(Default)]
pub struct Exact {
    bufs: Vec<(*mut u8, usize)>,
}
impl Exact {
    fn get(&mut self, len: usize, elem: usize, rng: &mut Rng) -> *mut u8 {
        if len == 0 {
            return core::ptr::without_provenance_mut(8);
        }
        // one in three does not start at a multiple of 8, at the price of slack before it (never behind it)
        let off = if rng.one_in(3) { rng.below(16) / elem * elem } else { 0 };
        let l = core::alloc::Layout::from_size_align(off + len, 8).unwrap();
        let p = unsafe { alloc::alloc::alloc(l) };
        assert!(!p.is_null());
        self.bufs.push((p, off + len));
        unsafe { p.add(off) }
    }
}
impl Drop for Exact {
    fn drop(&mut self) {
        let _ = self.check();
    }
}
impl Mem for Exact {
    fn src(&mut self, data: &[u8], elem: usize, rng: &mut Rng) -> *mut u8 {
        let p = self.get(data.len(), elem, rng);
        unsafe { core::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len()) };
        p
    }
    fn dst(&mut self, len: usize, elem: usize, rng: &mut Rng) -> *mut u8 {
        self.get(len, elem, rng)
    }
    fn check(&mut self) -> Result<(), &'static str> {
        for (p, n) in self.bufs.drain(..) {
            unsafe { alloc::alloc::dealloc(p, core::alloc::Layout::from_size_align(n, 8).unwrap()) };
        }
        Ok(())
    }
}

pub struct Fail {
    pub what: String,
    pub sem: Option<(Sem, Mode)>,
    pub src: Vec<u8>,
    pub dst_len: usize,
    pub expected: String,
    pub got: String,
}

fn clip(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(400) {
        s.push_str(&alloc::format!("{c:02x}"));
    }
    if b.len() > 400 {
        s.push_str("...");
    }
    s
}
pub fn show_exp(e: &Exp) -> String {
    match e {
        Exp::Bytes(b) => alloc::format!("Ok({} bytes: {})", b.len(), clip(b)),
        e => alloc::format!("{e:?}"),
    }
}
pub fn show_got(g: &Got, from: &[u8]) -> String {
    match g {
        Got::Owned(b) => alloc::format!("Ok({} bytes: {})", b.len(), clip(b)),
        Got::At(_, n) => alloc::format!("Ok(slice of {} bytes: {})", n, clip(from)),
        g => alloc::format!("{g:?}"),
    }
}

/// Distinct-case counter: open-addressing set of 64-bit hashes.
pub struct Seen {
    t: Vec<u64>,
    n: usize,
    extra: usize,
}
impl Seen {
    pub fn new() -> Self {
        Seen {
            t: alloc::vec![0; 1 << 12],
            n: 0,
            extra: 0,
        }
    }
    pub fn len(&self) -> usize {
        self.n + self.extra
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    /// Adds a count of cases known to be distinct from all others.
    pub fn add(&mut self, n: usize) {
        self.extra += n;
    }
    pub fn insert(&mut self, h: u64) {
        if self.n * 2 > self.t.len() {
            let old = core::mem::replace(&mut self.t, Vec::new());
            self.t = alloc::vec![0; old.len() * 4];
            self.n = 0;
            for x in old {
                if x != 0 {
                    self.put(x);
                }
            }
        }
        self.put(h | 1);
    }
    fn put(&mut self, h: u64) {
        let k = self.t.len() - 1;
        let mut i = (h >> 7) as usize & k;
        loop {
            if self.t[i] == 0 {
                self.t[i] = h;
                self.n += 1;
                return;
            }
            if self.t[i] == h {
                return;
            }
            i = (i + 1) & k;
        }
    }
}
impl Default for Seen {
    fn default() -> Self {
        Self::new()
    }
}
pub fn hash(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325 ^ ((b.len() as u64) << 32);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        h ^= h >> 29;
    }
    for &c in it.remainder() {
        h = (h ^ c as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    crate::rng::mix(h)
}

#[derive(Default)]
pub struct Stats {
    pub calls: u64,
    pub ok: u64,
    pub err: u64,
    pub short_dst: u64,
    pub mismatch: u64,
    pub inputs: u64,
    pub seen: Seen,
    pub samples: Vec<String>,
}

/// Runs calls and judges them against the oracle.
pub struct Judge<'m> {
    pub mem: &'m mut dyn Mem,
    pub rng: Rng,
    pub st: Stats,
    pub only: Option<fn(Mode) -> bool>,
    /// one random entry point per input besides the plain one, instead of all
    pub sparse: bool,
    /// count wrong results instead of reporting them (properties that are not about results)
    pub lenient: bool,
    /// a successful call leaves the rest of its destination alone
    pub rest: bool,
    /// how to run something that must panic; None where panics cannot be caught
    pub catch: Option<fn(&mut dyn FnMut()) -> bool>,
}

impl<'m> Judge<'m> {
    pub fn new(mem: &'m mut dyn Mem, seed: u64) -> Self {
        Judge {
            mem,
            rng: Rng::new(seed),
            st: Stats::default(),
            only: None,
            sparse: false,
            lenient: false,
            rest: false,
            catch: None,
        }
    }

    fn prior(&mut self, mode: Mode) -> Prior {
        let n = match self.rng.below(4) {
            0 => 0,
            1 => self.rng.range(1, 8),
            _ => self.rng.range(1, 100),
        };
        let text: Vec<u8> = if mode == AppString {
            let mut s = String::new();
            while s.len() < n {
                s.push(*self.rng.pick(&['a', 'é', '=', '漢', '\u{10ffff}', '0']));
            }
            s.into_bytes()
        } else {
            self.rng.bytes(n)
        };
        let spare = if self.rng.one_in(3) { 0 } else { self.rng.below(600) };
        Prior { text, spare }
    }

    /// One input through every entry point of `sem` allowed by `only`.
    pub fn input(&mut self, sem: Sem, s: &[u8]) -> Result<(), Fail> {
        let e = spec::expect(sem, s);
        self.st.inputs += 1;
        if !s.is_empty() {
            self.st.seen.insert(hash(sem_index_fast(sem), s));
        }
        let only = self.only;
        let allowed = |m: &Mode| match only {
            Some(f) => f(*m),
            None => true,
        };
        let all = modes(sem);
        if self.sparse {
            let mut k = 0;
            for mode in all.iter().copied().filter(|m| allowed(m)) {
                k += 1;
                if k == 1 {
                    self.one(sem, mode, s, &e)?;
                }
            }
            if k > 1 {
                let r = 1 + self.rng.below(k - 1);
                if let Some(mode) = all.iter().copied().filter(|m| allowed(m)).nth(r) {
                    self.one(sem, mode, s, &e)?;
                }
            }
        } else {
            for mode in all.iter().copied().filter(|m| allowed(m)) {
                self.one(sem, mode, s, &e)?;
            }
        }
        Ok(())
    }

    fn one(&mut self, sem: Sem, mode: Mode, s: &[u8], e: &Exp) -> Result<(), Fail> {
        if !mode.has_dst() {
            return self.call(sem, mode, s, e, 0);
        }
        if let Some(k) = fixed_dst(sem) {
            return self.call(sem, mode, s, e, k);
        }
        let el = spec::elem(sem);
        let need = spec::need(sem, s, e);
        // minimal destination
        self.call(sem, mode, s, e, need)?;
        if mode == Raw {
            return Ok(());
        }
        // roomy destination
        if !self.sparse || self.rng.one_in(3) {
            let extra = self.rng.range(1, 70) * el;
            self.call(sem, mode, s, e, need + extra)?;
        }
        // too short
        if need > 0 && self.rng.one_in(if self.sparse { 4 } else { 2 }) {
            let short = match self.rng.below(3) {
                0 => need - el,
                1 => 0,
                _ => self.rng.below(need / el) * el,
            };
            self.st.short_dst += 1;
            if matches!(sem, Sem::Swap16 | Sem::Swap32) {
                self.must_panic(sem, mode, s, short)?;
            } else {
                self.call(sem, mode, s, &Exp::Err, short)?;
            }
        }
        Ok(())
    }

    /// Judges one recorded call again, at several placements.
    pub fn replay(&mut self, sem: Sem, mode: Mode, s: &[u8], m: usize) -> Result<(), Fail> {
        let full = spec::expect(sem, s);
        let short = mode.has_dst() && fixed_dst(sem).is_none() && m < spec::need(sem, s, &full);
        for _ in 0..64 {
            if short && matches!(sem, Sem::Swap16 | Sem::Swap32) {
                self.must_panic(sem, mode, s, m)?;
            } else {
                self.call(sem, mode, s, if short { &Exp::Err } else { &full }, m)?;
            }
        }
        Ok(())
    }

    fn must_panic(&mut self, sem: Sem, mode: Mode, s: &[u8], m: usize) -> Result<(), Fail> {
        let Some(catch) = self.catch else { return Ok(()) };
        let el = spec::elem(sem);
        let src = self.mem.src(s, el, &mut self.rng);
        let dst = self.mem.dst(m, el, &mut self.rng);
        note(sem, mode, s, dst, m);
        let n = s.len();
        let mut got = Got::Err;
        let p = catch(&mut || got = unsafe { run(sem, mode, src, n, dst, m, &Prior::default()) });
        self.st.calls += 1;
        if !p && !self.lenient {
            return Err(Fail {
                what: "short destination accepted".into(),
                sem: Some((sem, mode)),
                src: s.to_vec(),
                dst_len: m,
                expected: "panic".into(),
                got: show_got(&got, &[]),
            });
        }
        self.st.err += 1;
        self.after(sem, mode, s, m, src, false)
    }

    fn after(&mut self, sem: Sem, mode: Mode, s: &[u8], m: usize, src: *mut u8, inplace: bool) -> Result<(), Fail> {
        let mk = |what: &str| Fail {
            what: what.into(),
            sem: Some((sem, mode)),
            src: s.to_vec(),
            dst_len: m,
            expected: "untouched".into(),
            got: "modified".into(),
        };
        if self.lenient {
            let _ = self.mem.check();
            return Ok(());
        }
        if !inplace {
            let now = unsafe { core::slice::from_raw_parts(src.cast_const(), s.len()) };
            if now != s {
                return Err(mk("the source buffer was modified"));
            }
        }
        self.mem.check().map_err(|w| mk(w))
    }

    pub fn call(&mut self, sem: Sem, mode: Mode, s: &[u8], e: &Exp, m: usize) -> Result<(), Fail> {
        let el = spec::elem(sem);
        let src = self.mem.src(s, el, &mut self.rng);
        let dst = if mode.has_dst() { self.mem.dst(m, el, &mut self.rng) } else { core::ptr::null_mut() };
        let prior = if matches!(mode, AppVec | AppString) { self.prior(mode) } else { Prior::default() };
        note(sem, mode, s, dst, m);
        // (forgiving decoding uses the whole of its destination)
        let rest = match e {
            Exp::Bytes(b) if self.rest && mode.has_dst() && sem != Sem::Forg && b.len() < m => b.len()..m,
            _ => 0..0,
        };
        for i in rest.clone() {
            unsafe { dst.add(i).write((i as u8).wrapping_mul(29) ^ 0x6B) };
        }
        let g = unsafe { run(sem, mode, src, s.len(), dst, m, &prior) };
        self.st.calls += 1;
        let base = if mode.has_dst() { dst } else { src };
        let slice: &[u8] = match g {
            // only look at memory the call may legitimately return
            Got::At(p, n)
                if p == base as usize && n <= (if mode.has_dst() { m } else { s.len() }) && !base.is_null() =>
            unsafe { core::slice::from_raw_parts(base.cast_const(), n) },
            _ => &[],
        };
        let good = agrees(sem, &g, e, base as usize, slice);
        match e {
            Exp::Err | Exp::Bool(false) => self.st.err += 1,
            _ => self.st.ok += 1,
        }
        if self.st.samples.len() < 4 && s.len() > 20 && self.rng.one_in(50) {
            self.st.samples.push(alloc::format!(
                "{sem:?}/{mode:?} src[{}]={} dst_len={m} -> {}",
                s.len(),
                clip(&s[..s.len().min(48)]),
                match e {
                    Exp::Bytes(b) => alloc::format!("Ok({} bytes)", b.len()),
                    e => alloc::format!("{e:?}"),
                }
            ));
        }
        if !good && self.lenient {
            self.st.mismatch += 1;
        }
        if !good && !self.lenient {
            return Err(Fail {
                what: "result differs from the specification".into(),
                sem: Some((sem, mode)),
                src: s.to_vec(),
                dst_len: m,
                expected: show_exp(e),
                got: show_got(&g, slice),
            });
        }
        for i in rest {
            if unsafe { dst.add(i).read() } != (i as u8).wrapping_mul(29) ^ 0x6B {
                return Err(Fail {
                    what: "the destination was modified beyond the result".into(),
                    sem: Some((sem, mode)),
                    src: s.to_vec(),
                    dst_len: m,
                    expected: "untouched".into(),
                    got: alloc::format!("byte {i} modified"),
                });
            }
        }
        self.after(sem, mode, s, m, src, mode.inplace())
    }
}

/// Is this what the oracle expects? `slice` is what the call returned of the buffer at `base`.
pub fn agrees(sem: Sem, g: &Got, e: &Exp, base: usize, slice: &[u8]) -> bool {
    match (g, e) {
        (Got::Err, Exp::Err) | (Got::Unit, Exp::Unit) => true,
        (Got::Bool(a), Exp::Bool(b)) => a == b,
        (Got::Len(a), Exp::Len(b)) => a == b,
        (Got::Owned(v), Exp::Bytes(b)) => v == b,
        (Got::At(p, n), Exp::Bytes(b)) => *p == base && *n == b.len() && slice == &b[..],
        // predicted lengths are unspecified for strings that do not decode
        (Got::Err | Got::Len(_), Exp::Unit) if matches!(sem, Sem::B64Len(_) | Sem::B32Len(_)) => true,
        _ => false,
    }
}

pub fn fixed_dst(sem: Sem) -> Option<usize> {
    match sem {
        Sem::UuidParse | Sem::UuidParseS | Sem::UuidParseH => Some(16),
        Sem::UuidFmtSL | Sem::UuidFmtSU => Some(32),
        Sem::UuidFmtHL | Sem::UuidFmtHU => Some(36),
        _ => None,
    }
}

/// A stable small number per operation, without allocating.
pub fn sem_index_fast(s: Sem) -> u64 {
    use Sem::*;
    match s {
        HexEncL => 1,
        HexEncU => 2,
        HexDec => 3,
        HexChk => 4,
        Forg => 5,
        B64Enc(v) => 10 + v as u64,
        B64Dec(v) => 20 + v as u64,
        B64Chk(v) => 30 + v as u64,
        B64Len(v) => 40 + v as u64,
        B32Enc(v) => 50 + v as u64,
        B32Dec(v) => 60 + v as u64,
        B32Chk(v) => 70 + v as u64,
        B32Len(v) => 80 + v as u64,
        UuidParse => 90,
        UuidParseS => 91,
        UuidParseH => 92,
        UuidFmtSL => 93,
        UuidFmtSU => 94,
        UuidFmtHL => 95,
        UuidFmtHU => 96,
        IsAscii => 97,
        FromAscii => 98,
        IsUtf32 => 99,
        Swap16 => 100,
        Swap32 => 101,
    }
}
pub fn sem_from_index(i: usize) -> Option<Sem> {
    all_sems().into_iter().find(|&s| sem_index_fast(s) as usize == i)
}
