//! Length functions against exact arithmetic in 128 bits.
use crate::gen::{Scale, R};
use crate::ops::{b32, b64, Fail, Stats};
use crate::rng::Rng;
use crate::spec::{self, B32S, B64S};
use alloc::string::String;
use alloc::vec::Vec;

const HALF: usize = usize::MAX / 2;

fn b64_enc(n: u128, pad: bool) -> u128 {
    if pad {
        (n + 2) / 3 * 4
    } else {
        (n * 8 + 5) / 6
    }
}
fn b32_enc(n: u128, pad: bool) -> u128 {
    if pad {
        (n + 4) / 5 * 8
    } else {
        (n * 8 + 4) / 5
    }
}
/// Longest decoded length of a string of n symbols; None if no string of that length decodes.
fn b64_dec(n: u128, pad: bool) -> Option<u128> {
    if pad {
        (n % 4 == 0).then_some(n / 4 * 3)
    } else {
        (n % 4 != 1).then_some(n * 6 / 8)
    }
}
fn b32_dec(n: u128, pad: bool) -> Option<u128> {
    if pad {
        (n % 8 == 0).then_some(n / 8 * 5)
    } else {
        (!matches!(n % 8, 1 | 3 | 6)).then_some(n * 5 / 8)
    }
}

fn values(sc: Scale, rng: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (0..sc.by(70, 600, 20000, 200000)).collect();
    let w = sc.by(3usize, 20, 200, 2000);
    let mut around = |c: usize| {
        for d in 0..w {
            v.push(c.wrapping_sub(d));
            v.push(c.wrapping_add(d));
        }
    };
    around(usize::MAX);
    around(HALF);
    around(HALF + 1);
    for q in [3usize, 4, 5, 6, 7, 8, 10] {
        around(usize::MAX / q);
        around(usize::MAX / q * 2);
        if q > 4 {
            around(usize::MAX / q * 3);
            around(usize::MAX / q * 4);
        }
        around(HALF / q);
    }
    for b in 8..usize::BITS {
        for d in 0..sc.by(2usize, 10, 70, 300) {
            v.push((1usize << b).wrapping_sub(d));
            v.push((1usize << b).wrapping_add(d));
        }
    }
    for _ in 0..sc.by(30, 500, 60000, 2_000_000) {
        v.push((rng.u64() as usize) >> rng.below(usize::BITS as usize - 1));
    }
    v
}

pub fn run(sc: Scale, rng: &mut Rng, st: &mut Stats, catch: Option<fn(&mut dyn FnMut()) -> bool>) -> R {
    let vals = values(sc, rng);
    let mut panics = 0;
    let fail = |what: String, n: usize, want: String, got: String| Fail {
        what: alloc::format!("{what} of {n}"),
        sem: None,
        src: Vec::new(),
        dst_len: 0,
        expected: want,
        got,
    };
    for &n in &vals {
        st.inputs += 1;
        st.seen.insert(n as u64);
        let mut encs: [(&'static str, u128, usize); 9] = [("", 0, 0); 9];
        let big = n > HALF;
        for i in 0..9 {
            let name = match i {
                0 => "hex encoded_length",
                1..=4 => ["base64 STANDARD encoded_length", "base64 URL_SAFE encoded_length", "base64 STANDARD_NO_PAD encoded_length", "base64 URL_SAFE_NO_PAD encoded_length"][i - 1],
                _ => ["BASE32 encoded_length", "BASE32HEX encoded_length", "BASE32_NO_PAD encoded_length", "BASE32HEX_NO_PAD encoded_length"][i - 5],
            };
            let want = match i {
                0 => n as u128 * 2,
                1..=4 => b64_enc(n as u128, spec::b64_pad(B64S[i - 1])),
                _ => b32_enc(n as u128, spec::b32_pad(B32S[i - 5])),
            };
            let f = move || match i {
                0 => hex_simd::encoded_length(n),
                1..=4 => b64(B64S[i - 1]).encoded_length(n),
                _ => b32(B32S[i - 5]).encoded_length(n),
            };
            st.calls += 1;
            if big {
                // must panic; expensive, so not for all
                let Some(catch) = catch else { continue };
                if sc == Scale::Quick && n % 7 != 0 && n < usize::MAX - 300 && n > HALF + 300 {
                    continue;
                }
                let mut got = 0;
                panics += 1;
                if !catch(&mut || got = f()) {
                    return Err(fail(name.into(), n, "panic".into(), alloc::format!("{got}")));
                }
                st.err += 1;
            } else {
                if let Some(catch) = catch.filter(|_| n > HALF - 300 || st.inputs % 64 == 0) {
                    // possibly in another process
                    if catch(&mut || {
                        core::hint::black_box(f());
                    }) {
                        return Err(fail(name.into(), n, alloc::format!("{want}"), "panic".into()));
                    }
                }
                let got = f();
                encs[i] = (name, want, got);
                st.ok += 1;
            }
        }
        if !big {
            for (name, want, got) in encs {
                if want != got as u128 {
                    return Err(fail(name.into(), n, alloc::format!("{want}"), alloc::format!("{got}")));
                }
            }
        }
        st.calls += 9;
        let h = hex_simd::decoded_length(n).ok();
        let hw = if n % 2 == 0 { Some(n / 2) } else { None };
        if h != hw {
            return Err(fail("hex decoded_length".into(), n, alloc::format!("{hw:?}"), alloc::format!("{h:?}")));
        }
        for k in 0..4 {
            let got = b64(B64S[k]).estimated_decoded_length(n);
            if let Some(w) = b64_dec(n as u128, spec::b64_pad(B64S[k])) {
                if (got as u128) < w {
                    return Err(fail(alloc::format!("base64 {:?} estimated_decoded_length", B64S[k]), n, alloc::format!("at least {w}"), alloc::format!("{got}")));
                }
            }
            let got = b32(B32S[k]).estimated_decoded_length(n);
            if let Some(w) = b32_dec(n as u128, spec::b32_pad(B32S[k])) {
                if (got as u128) < w {
                    return Err(fail(alloc::format!("base32 {:?} estimated_decoded_length", B32S[k]), n, alloc::format!("at least {w}"), alloc::format!("{got}")));
                }
            }
        }
        if st.samples.len() < 4 && n > 1000 && rng.one_in(vals.len() / 4) {
            st.samples.push(alloc::format!("n = {n}: hex {h:?}, encoded lengths {:?}", if big { [0; 9] } else { encs.map(|e| e.2) }));
        }
    }
    // against real encodings: the returned slices' lengths
    for n in 0..sc.by(40usize, 300, 1200, 5000) {
        let d = rng.bytes(n);
        st.calls += 9;
        st.inputs += 1;
        if hex_simd::encode_to_string(&d, hex_simd::AsciiCase::Lower).len() != hex_simd::encoded_length(n) {
            return Err(fail("hex encoded_length against encoding".into(), n, "equal".into(), "different".into()));
        }
        for k in 0..4 {
            let b = b64(B64S[k]);
            let e = b.encode_to_string(&d);
            if e.len() != b.encoded_length(n) || b.estimated_decoded_length(e.len()) < n {
                return Err(fail(alloc::format!("base64 {:?} lengths against encoding", B64S[k]), n, alloc::format!("{}", e.len()), alloc::format!("{} / {}", b.encoded_length(n), b.estimated_decoded_length(e.len()))));
            }
            let b = b32(B32S[k]);
            let e = b.encode_to_string(&d);
            if e.len() != b.encoded_length(n) || b.estimated_decoded_length(e.len()) < n {
                return Err(fail(alloc::format!("base32 {:?} lengths against encoding", B32S[k]), n, alloc::format!("{}", e.len()), alloc::format!("{} / {}", b.encoded_length(n), b.estimated_decoded_length(e.len()))));
            }
        }
    }
    let _ = panics;
    Ok(())
}
