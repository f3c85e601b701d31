//! Sequences of appends to one target, successful and failing ones mixed, with capacity changes between them.
use crate::ops::{b32, b64, Fail, Judge};
use crate::rng::Rng;
use crate::spec::{self, Exp, Sem, B32S, B64S};
use alloc::format;
use alloc::string::String;
use alloc::vec::Vec;
use hex_simd::AsciiCase;

fn source(sem: Sem, big: bool, rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(8) {
        0 => 0,
        1 if big => rng.range(1000, 70_000),
        1..=3 => rng.range(1, 8),
        _ => rng.range(1, 200),
    };
    let d = rng.bytes(n);
    match sem {
        Sem::HexDec | Sem::B64Dec(_) | Sem::B32Dec(_) => {
            let mut v = crate::gen::code(sem).valid(&d, rng);
            if !v.is_empty() {
                let k = rng.below(v.len());
                match rng.below(5) {
                    0 => v[k] = *rng.pick(b"!=\0 -_\xff"),
                    1 => v.truncate(k),
                    _ => {}
                }
            }
            v
        }
        _ => d,
    }
}

fn pick(text: bool, rng: &mut Rng) -> Sem {
    let a = *rng.pick(&B64S);
    let b = *rng.pick(&B32S);
    let all = [Sem::HexEncL, Sem::HexEncU, Sem::B64Enc(a), Sem::B32Enc(b), Sem::HexDec, Sem::B64Dec(a), Sem::B32Dec(b)];
    // only encodings can be appended to a String
    all[rng.below(if text { 4 } else { 7 })]
}

enum Target {
    V(Vec<u8>),
    S(String),
}
impl Target {
    fn bytes(&self) -> &[u8] {
        match self {
            Target::V(v) => v,
            Target::S(s) => s.as_bytes(),
        }
    }
    fn append(&mut self, sem: Sem, s: &[u8]) -> bool {
        match (sem, self) {
            (Sem::HexEncL, Target::V(v)) => hex_simd::encode_append(s, v, AsciiCase::Lower),
            (Sem::HexEncU, Target::V(v)) => hex_simd::encode_append(s, v, AsciiCase::Upper),
            (Sem::B64Enc(k), Target::V(v)) => b64(k).encode_append(s, v),
            (Sem::B32Enc(k), Target::V(v)) => b32(k).encode_append(s, v),
            (Sem::HexEncL, Target::S(v)) => hex_simd::encode_append(s, v, AsciiCase::Lower),
            (Sem::HexEncU, Target::S(v)) => hex_simd::encode_append(s, v, AsciiCase::Upper),
            (Sem::B64Enc(k), Target::S(v)) => b64(k).encode_append(s, v),
            (Sem::B32Enc(k), Target::S(v)) => b32(k).encode_append(s, v),
            (Sem::HexDec, Target::V(v)) => return hex_simd::decode_append(s, v).is_ok(),
            (Sem::B64Dec(k), Target::V(v)) => return b64(k).decode_append(s, v).is_ok(),
            (Sem::B32Dec(k), Target::V(v)) => return b32(k).decode_append(s, v).is_ok(),
            _ => unreachable!(),
        }
        true
    }
    /// What a program may do to its buffer between two appends.
    fn change(&mut self, model: &mut Vec<u8>, rng: &mut Rng) {
        match self {
            Target::V(v) => match rng.below(8) {
                0 => v.shrink_to_fit(),
                1 => v.reserve_exact(rng.below(300)),
                2 => {
                    let k = rng.below(v.len() + 1);
                    v.truncate(k);
                    model.truncate(k);
                }
                3 => {
                    v.push(7);
                    model.push(7);
                }
                4 => {
                    let k = rng.below(v.len() + 1);
                    v.drain(..k);
                    model.drain(..k);
                }
                _ => {}
            },
            Target::S(v) => match rng.below(6) {
                0 => v.shrink_to_fit(),
                1 => v.reserve_exact(rng.below(300)),
                2 => {
                    v.push('漢');
                    model.extend("漢".bytes());
                }
                _ => {}
            },
        }
    }
}

pub fn run(j: &mut Judge, count: usize, big: bool) -> Result<(), Fail> {
    let mut rng = Rng::new(j.rng.u64());
    for h in 0..count {
        let text = rng.one_in(3);
        let start = match rng.below(6) {
            0 => 0,
            1 if big => rng.range(60_000, 140_000),
            _ => rng.below(300),
        };
        let mut model: Vec<u8> = rng.bytes(start);
        let mut t = if text {
            for b in &mut model {
                *b = *b & 63 | 32;
            }
            Target::S(String::from_utf8(model.clone()).unwrap())
        } else {
            Target::V(model.clone())
        };
        let steps = rng.range(1, 24);
        let mut log = String::new();
        for k in 0..steps {
            let sem = pick(text, &mut rng);
            let s = source(sem, big, &mut rng);
            let e = spec::expect(sem, &s);
            let before = t.bytes().len();
            let ok = t.append(sem, &s);
            j.st.calls += 1;
            j.st.inputs += 1;
            if let Exp::Bytes(b) = &e {
                model.extend_from_slice(b);
                j.st.ok += 1;
            } else {
                j.st.err += 1;
            }
            log.push_str(&format!(" {sem:?}:{}", s.len()));
            let what = if ok != (e != Exp::Err) {
                "an append in a sequence of appends succeeds or fails wrongly"
            } else if t.bytes() != &model[..] {
                "the target after a sequence of appends"
            } else if matches!(&t, Target::S(s) if core::str::from_utf8(s.as_bytes()).is_err()) {
                "a String that is not UTF-8"
            } else {
                t.change(&mut model, &mut rng);
                continue;
            };
            if j.lenient {
                j.st.mismatch += 1;
                break;
            }
            let got = t.bytes();
            let at = got.iter().zip(&model).position(|(a, b)| a != b).unwrap_or(got.len().min(model.len()));
            return Err(Fail {
                what: format!("{what} (history {h}, step {k}, {before} bytes before it; steps:{log})"),
                sem: None,
                src: s,
                dst_len: 0,
                expected: format!("{} bytes, then at {at}: {:?}", model.len(), &model[at..model.len().min(at + 16)]),
                got: format!("ok={ok}, {} bytes, at {at}: {:?}", got.len(), &got[at..got.len().min(at + 16)]),
            });
        }
        if h < 2 {
            j.st.samples.push(format!("append history:{log}"));
        }
    }
    Ok(())
}
