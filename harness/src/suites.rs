//! The functional suites: which operations and entry points each property drives, and how hard.
use crate::gen::{self, Scale, R};
use crate::ops::{Fail, Judge, Mode};
use crate::spec::{Sem, B32S, B64S};
#[allow(unused_imports)]
use alloc::string::String;
use alloc::vec::Vec;

pub fn sems(prop: &str) -> Vec<Sem> {
    use Sem::*;
    let mut v = Vec::new();
    match prop {
        "X01" => v.extend([HexEncL, HexEncU]),
        "X02" => v.push(HexDec),
        "B01" => v.extend(B64S.map(B64Enc)),
        "B02" => v.extend(B64S.map(B64Dec)),
        "B03" => v.push(Forg),
        "C01" => v.extend(B32S.map(B32Enc)),
        "C02" => v.extend(B32S.map(B32Dec)),
        "K01" => {
            v.push(HexChk);
            v.push(HexDec);
            for k in 0..4 {
                v.extend([B64Chk(B64S[k]), B64Len(B64S[k]), B64Dec(B64S[k])]);
                v.extend([B32Chk(B32S[k]), B32Len(B32S[k]), B32Dec(B32S[k])]);
            }
        }
        "I01" => {
            v.extend([HexDec, Forg, Swap16, Swap32]);
            v.extend(B64S.map(B64Dec));
            v.extend(B32S.map(B32Dec));
        }
        "A01" => {
            v.extend([HexEncL, HexEncU, HexDec, Forg]);
            v.extend(B64S.map(B64Enc));
            v.extend(B64S.map(B64Dec));
            v.extend(B32S.map(B32Enc));
            v.extend(B32S.map(B32Dec));
        }
        "U01" => v.extend([UuidParse, UuidParseS, UuidParseH]),
        "U02" => v.extend([UuidFmtSL, UuidFmtSU, UuidFmtHL, UuidFmtHU, UuidParse, UuidParseS, UuidParseH]),
        "N01" => v.extend([IsAscii, FromAscii]),
        "N02" => v.push(IsUtf32),
        "N03" => v.extend([Swap16, Swap32]),
        _ => v = crate::ops::all_sems(),
    }
    v
}

/// Properties about some operations only; any other name stands for all of them.
const KNOWN: [&str; 15] = ["X01", "X02", "B01", "B02", "B03", "C01", "C02", "K01", "I01", "A01", "U01", "U02", "N01", "N02", "N03"];

/// `charset` of each variant.
fn alphabets(j: &mut Judge) -> R {
    for k in 0..4 {
        let c = [
            ("base64", crate::spec::b64_charset(B64S[k]), crate::ops::b64(B64S[k]).charset().to_vec()),
            ("base32", crate::spec::b32_charset(B32S[k]), crate::ops::b32(B32S[k]).charset().to_vec()),
        ];
        for (name, want, got) in c {
            j.st.calls += 1;
            if want != got {
                return Err(Fail {
                    what: alloc::format!("{name} charset of variant {k}"),
                    sem: None,
                    src: Vec::new(),
                    dst_len: 0,
                    expected: String::from_utf8_lossy(&want).into_owned(),
                    got: String::from_utf8_lossy(&got).into_owned(),
                });
            }
        }
    }
    Ok(())
}

/// Error values can be printed (anything that goes wrong there is a panic).
fn errors(j: &mut Judge) {
    use hex_simd::AsOut;
    let mut d = [0u8; 16];
    let e1 = hex_simd::check(b"g").unwrap_err();
    let e2 = crate::ops::b64(B64S[0]).check(b"*").unwrap_err();
    let e3 = crate::ops::b32(B32S[0]).check(b"*").unwrap_err();
    let e4 = uuid_simd::parse(b"*", d.as_out()).map(|_| ()).unwrap_err();
    for s in [
        alloc::format!("{e1} {e1:?} {e1:#?} {e1:>30} {e1:.2}"),
        alloc::format!("{e2} {e2:?} {e2:#?} {e2:>30} {e2:.2}"),
        alloc::format!("{e3} {e3:?} {e3:#?} {e3:>30} {e3:.2}"),
        alloc::format!("{e4} {e4:?} {e4:#?} {e4:>30} {e4:.2}"),
    ] {
        j.st.calls += 1;
        core::hint::black_box(s);
    }
}

fn only(prop: &str) -> Option<fn(Mode) -> bool> {
    match prop {
        "I01" => Some(|m| m.inplace() || m == Mode::Slice),
        "A01" => Some(|m| m.allocates()),
        "M01" => Some(|m| !m.allocates()),
        "K01" => Some(|m| matches!(m, Mode::Plain | Mode::PlainRaw | Mode::Slice)),
        _ => None,
    }
}

/// Runs the generators of every operation of `prop` through the judge.
pub fn functional(prop: &str, sc: Scale, j: &mut Judge) -> R {
    j.only = only(prop);
    let seed = j.rng.u64();
    for (k, sem) in sems(prop).into_iter().enumerate() {
        let mut rng = crate::rng::Rng::new(seed ^ (k as u64) << 32);
        let sc = narrowed(prop, sem, sc);
        gen::inputs(sem, sc, &mut rng, &mut |s| j.input(sem, s))?;
    }
    if prop == "U02" {
        #[cfg(feature = "ext")]
        uuid_display(j)?;
    } else if !KNOWN.contains(&prop) && sc >= Scale::Small {
        #[cfg(feature = "ext")]
        uuid_display_n(j, 40)?;
    }
    if matches!(prop, "B01" | "B02" | "C01" | "C02") || !KNOWN.contains(&prop) {
        alphabets(j)?;
        errors(j);
    }
    if prop == "A01" {
        crate::histories::run(j, sc.by(2, 40, 500, 4000), sc >= Scale::Quick)?;
    } else if !KNOWN.contains(&prop) {
        crate::histories::run(j, sc.by(2, 10, 100, 400), sc >= Scale::Quick)?;
    }
    if prop == "K01" {
        agree(sc, j, seed)?;
    }
    Ok(())
}

/// Side roles of an operation inside a broad property are driven less hard.
fn narrowed(prop: &str, sem: Sem, sc: Scale) -> Scale {
    use Sem::*;
    if sc <= Scale::Small {
        return sc;
    }
    match (prop, sem) {
        ("U02", UuidParse | UuidParseS | UuidParseH) => Scale::Small,
        ("K01", HexDec | B64Dec(_) | B32Dec(_)) => Scale::Small,
        ("K01", B64Len(_) | B32Len(_)) if sc == Scale::Quick => Scale::Small,
        _ => sc,
    }
}

/// The statement of K01 itself, with the library on both sides.
fn agree(sc: Scale, j: &mut Judge, seed: u64) -> R {
    use crate::ops::{b32, b64};
    let mut buf = Vec::new();
    for k in 0..4 {
        for which in 0..3 {
            if which == 2 && k > 0 {
                continue;
            }
            let sem = match which {
                0 => Sem::B64Dec(B64S[k]),
                1 => Sem::B32Dec(B32S[k]),
                _ => Sem::HexDec,
            };
            let mut rng = crate::rng::Rng::new(seed ^ 0x5151 ^ (k as u64) << 8 ^ which);
            let sc = if sc == Scale::Quick { Scale::Small } else { sc };
            gen::inputs(sem, sc, &mut rng, &mut |s| {
                buf.clear();
                buf.resize(s.len(), 0u8);
                use hex_simd::AsOut;
                let (chk, len, dec) = match which {
                    0 => {
                        let b = b64(B64S[k]);
                        let d = b.decode(s, buf.as_out()).ok().map(|d| d.len());
                        (b.check(s).is_ok(), b.decoded_length(s).ok(), d)
                    }
                    1 => {
                        let b = b32(B32S[k]);
                        let d = b.decode(s, buf.as_out()).ok().map(|d| d.len());
                        (b.check(s).is_ok(), b.decoded_length(s).ok(), d)
                    }
                    _ => {
                        let d = hex_simd::decode(s, buf.as_out()).ok().map(|d| d.len());
                        (hex_simd::check(s).is_ok(), hex_simd::decoded_length(s.len()).ok(), d)
                    }
                };
                j.st.calls += 3;
                let bad = if which == 2 {
                    s.len() % 2 == 0 && chk != dec.is_some()
                } else {
                    chk != dec.is_some()
                };
                if bad || (dec.is_some() && len != dec) {
                    return Err(Fail {
                        what: "check, decoded_length and decode disagree".into(),
                        sem: Some((sem, Mode::Slice)),
                        src: s.to_vec(),
                        dst_len: s.len(),
                        expected: alloc::format!("decode: {dec:?}"),
                        got: alloc::format!("check ok: {chk}, decoded_length: {len:?}"),
                    });
                }
                Ok(())
            })?;
        }
    }
    Ok(())
}

/// The display adapters of `uuid::Uuid`, against a plain string given to the same format directives.
#[cfg(feature = "ext")]
pub fn uuid_display(j: &mut Judge) -> R {
    uuid_display_n(j, 3000)
}
/// A writer that itself formats and parses UUIDs while it receives text, and fails after `room` bytes.
#[cfg(feature = "ext")]
struct Nested {
    text: String,
    inner: Vec<(String, String)>,
    other: [u8; 16],
    room: usize,
}
#[cfg(feature = "ext")]
impl core::fmt::Write for Nested {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        use uuid_simd::UuidExt;
        let u = uuid::Uuid::from_bytes(self.other);
        let k = self.text.len();
        for (got, upper, hyph) in [
            (alloc::format!("{}", u.format_simple()), false, false),
            (alloc::format!("{:X}", u.format_simple()), true, false),
            (alloc::format!("{}", u.format_hyphenated()), false, true),
            (alloc::format!("{:X}", u.format_hyphenated()), true, true),
        ] {
            self.inner.push((got, String::from_utf8(crate::spec::uuid_fmt(&self.other, upper, hyph)).unwrap()));
        }
        self.text.push_str(s);
        if k + s.len() > self.room {
            return Err(core::fmt::Error);
        }
        Ok(())
    }
}

#[cfg(feature = "ext")]
fn uuid_writers(j: &mut Judge, b: &[u8; 16], rng: &mut crate::rng::Rng) -> R {
    use core::fmt::Write;
    use uuid_simd::UuidExt;
    let u = uuid::Uuid::from_bytes(*b);
    for kind in 0..4 {
        let (upper, hyph) = (kind & 1 == 1, kind & 2 == 2);
        let want = String::from_utf8(crate::spec::uuid_fmt(b, upper, hyph)).unwrap();
        let room = if rng.one_in(2) { 100 } else { rng.below(32) };
        let mut w = Nested { text: String::new(), inner: Vec::new(), other: [0; 16], room };
        rng.fill(&mut w.other);
        let r = match kind {
            0 => write!(w, "{}", u.format_simple()),
            1 => write!(w, "{:X}", u.format_simple()),
            2 => write!(w, "{}", u.format_hyphenated()),
            _ => write!(w, "{:X}", u.format_hyphenated()),
        };
        j.st.calls += 1 + w.inner.len() as u64;
        let bad = if r.is_ok() != (room == 100) {
            Some(("a writer's error is not passed on (or an error is made up)", alloc::format!("{r:?}"), alloc::format!("room for {room} of {} characters", want.len())))
        } else if r.is_ok() && w.text != want {
            Some(("text that a writer received", w.text, want))
        } else {
            w.inner.into_iter().find(|(a, b)| a != b).map(|(a, b)| ("formatting from within a writer", a, b))
        };
        if let Some((what, got, expected)) = bad {
            return Err(Fail { what: alloc::format!("display adapter, upper={upper} hyphenated={hyph}: {what}"), sem: None, src: b.to_vec(), dst_len: 0, expected, got });
        }
    }
    Ok(())
}

#[cfg(feature = "ext")]
pub fn uuid_display_n(j: &mut Judge, count: usize) -> R {
    use uuid::Uuid;
    use uuid_simd::{AsciiCase, UuidExt};
    let mut rng = crate::rng::Rng::new(j.rng.u64());
    for i in 0..count {
        let mut b = [0u8; 16];
        rng.fill(&mut b);
        if i < 256 {
            b[i % 16] = i as u8;
        }
        let u = Uuid::from_bytes(b);
        let w = rng.below(60);
        let p = rng.below(45);
        if i % 8 == 0 {
            uuid_writers(j, &b, &mut rng)?;
        }
        for upper in [false, true] {
            for hyph in [false, true] {
                let want = String::from_utf8(crate::spec::uuid_fmt(&b, upper, hyph)).unwrap();
                let mut checks: Vec<(&'static str, String, String)> = Vec::new();
                macro_rules! add {
                    ($lit:literal, $x:expr) => {
                        checks.push(($lit, alloc::format!($lit, $x), alloc::format!($lit, want.as_str())));
                    };
                }
                macro_rules! dirs {
                    ($x:expr) => {
                        add!("{:w$.p$}", $x);
                        add!("{:*^w$}", $x);
                        add!("{:é>w$}", $x);
                        add!("{:<w$.p$}", $x);
                        add!("{:.p$}", $x);
                        add!("{:050}", $x);
                        add!("{:#}", $x);
                        add!("{:+#045.40}", $x);
                    };
                }
                let _ = AsciiCase::Lower;
                match (hyph, upper) {
                    (false, false) => {
                        let d = u.format_simple();
                        dirs!(d);
                        checks.push(("{}", alloc::format!("{d}"), want.clone()));
                        checks.push(("{:x}", alloc::format!("{d:x}"), want.clone()));
                        checks.push(("{:#x}", alloc::format!("{d:#x}"), want.clone()));
                        checks.push(("{:*^wx}", alloc::format!("{d:*^w$x}"), alloc::format!("{want:*^w$}")));
                    }
                    (false, true) => {
                        let d = u.format_simple();
                        checks.push(("{:X}", alloc::format!("{d:X}"), want.clone()));
                        checks.push(("{:#X}", alloc::format!("{d:#X}"), want.clone()));
                        checks.push(("{:*^wX}", alloc::format!("{d:*^w$X}"), alloc::format!("{want:*^w$}")));
                        checks.push(("{:>w.pX}", alloc::format!("{d:>w$.p$X}"), alloc::format!("{want:>w$.p$}")));
                    }
                    (true, false) => {
                        let d = u.format_hyphenated();
                        dirs!(d);
                        checks.push(("{}", alloc::format!("{d}"), want.clone()));
                        checks.push(("{:x}", alloc::format!("{d:x}"), want.clone()));
                        checks.push(("{:#x}", alloc::format!("{d:#x}"), want.clone()));
                        checks.push(("{:*^wx}", alloc::format!("{d:*^w$x}"), alloc::format!("{want:*^w$}")));
                    }
                    (true, true) => {
                        let d = u.format_hyphenated();
                        checks.push(("{:X}", alloc::format!("{d:X}"), want.clone()));
                        checks.push(("{:#X}", alloc::format!("{d:#X}"), want.clone()));
                        checks.push(("{:*^wX}", alloc::format!("{d:*^w$X}"), alloc::format!("{want:*^w$}")));
                        checks.push(("{:>w.pX}", alloc::format!("{d:>w$.p$X}"), alloc::format!("{want:>w$.p$}")));
                    }
                }
                for (dir, got, want) in checks {
                    j.st.calls += 1;
                    if got != want {
                        return Err(Fail {
                            what: alloc::format!("display adapter with {dir} (w={w} p={p}) upper={upper} hyphenated={hyph}"),
                            sem: None,
                            src: b.to_vec(),
                            dst_len: 0,
                            expected: want,
                            got,
                        });
                    }
                }
                // round trip through the library's own parsers
                let parsed = if hyph { Uuid::parse_hyphenated(want.as_bytes()) } else { Uuid::parse_simple(want.as_bytes()) };
                if parsed.ok() != Some(u) || Uuid::parse(want.as_bytes()).ok() != Some(u) {
                    return Err(Fail {
                        what: "parsing the formatted text does not give the UUID back".into(),
                        sem: None,
                        src: b.to_vec(),
                        dst_len: 0,
                        expected: want,
                        got: "something else".into(),
                    });
                }
            }
        }
    }
    Ok(())
}
