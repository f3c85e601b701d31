//! How much work a call does: executed instructions (by single-stepping), requested memory, and CPU time on large inputs,
//! each against the length of the input.
use crate::heap::{LIVE_BYTES, ON, PEAK, REQUESTED};
use crate::report::{self, Outcome};
use crate::step;
use harness::gen::{self, Scale};
use harness::ops::{self, Mode, Prior, Stats};
use harness::rng::Rng;
use harness::spec::{self, Exp, Sem};
use std::sync::atomic::Ordering::Relaxed;

/// Content of `n` bytes (or a little less) of one kind; None past the last kind.
fn family(sem: Sem, k: usize, n: usize, rng: &mut Rng) -> Option<(&'static str, Vec<u8>)> {
    use Sem::*;
    let fill = |b: u8| vec![b; n];
    Some(match sem {
        HexEncL | HexEncU | B64Enc(_) | B32Enc(_) => match k {
            0 => ("random", rng.bytes(n)),
            1 => ("zeros", fill(0)),
            2 => ("0xff", fill(0xff)),
            _ => return None,
        },
        UuidFmtSL | UuidFmtSU | UuidFmtHL | UuidFmtHU => match k {
            0 => ("random", rng.bytes(16)),
            _ => return None,
        },
        UuidParse | UuidParseS | UuidParseH => {
            let head = |h: &str| {
                let mut v = h.as_bytes().to_vec();
                v.resize(n.max(v.len()), b'0');
                v
            };
            match k {
                0 => ("valid", spec::uuid_fmt(&rng.bytes(16), sem == UuidParseS, sem != UuidParseS)),
                1 => ("digits", fill(b'a')),
                2 => ("hyphens", fill(b'-')),
                3 => ("braces", fill(b'{')),
                4 => ("urn", head("urn:uuid:")),
                5 => ("spaces", fill(b' ')),
                6 => ("valid, then more", head("01234567-89ab-cdef-0123-456789abcdef")),
                7 => ("{, then more", head("{01234567-89ab-cdef-0123-456789abcdef}")),
                _ => return None,
            }
        }
        IsAscii | FromAscii => match k {
            0 => ("valid", rng.bytes(n).iter().map(|b| b & 127).collect()),
            1 => ("bad last", {
                let mut v = fill(b'a');
                *v.last_mut()? = 0x80;
                v
            }),
            2 => ("bad first", {
                let mut v = fill(b'a');
                v[0] = 0x80;
                v
            }),
            3 => ("bad", fill(0xff)),
            4 => ("random", rng.bytes(n)),
            _ => return None,
        },
        IsUtf32 => {
            let n = n / 4 * 4;
            let mut v: Vec<u8> = (0..n / 4).flat_map(|_| (rng.below(0xd800) as u32).to_le_bytes()).collect();
            match k {
                0 => ("valid", v),
                1 => ("bad last", {
                    v[n - 3] = 0xd9;
                    v
                }),
                2 => ("bad first", {
                    v[1] = 0xd9;
                    v
                }),
                3 => ("bad", vec![0xff; n]),
                4 => ("surrogates", (0..n / 4).flat_map(|_| 0xdbffu32.to_le_bytes()).collect()),
                _ => return None,
            }
        }
        Swap16 | Swap32 => match k {
            0 => ("random", rng.bytes(n / 4 * 4)),
            _ => return None,
        },
        HexDec | HexChk | Forg | B64Dec(_) | B64Chk(_) | B64Len(_) | B32Dec(_) | B32Chk(_) | B32Len(_) => {
            let c = gen::code(sem);
            let valid = |n: usize, rng: &mut Rng| {
                let d = rng.bytes(n * 40 / 100 / 40 * 40);
                let mut v = c.valid(&d, rng);
                while v.len() + c.group <= n {
                    v.insert(0, c.sym[1]);
                    if (n - v.len()) % c.group == 0 {
                        let fill: Vec<u8> = (0..n - v.len()).map(|_| *rng.pick(&c.sym)).collect();
                        let mut w = fill;
                        w.extend_from_slice(&v);
                        v = w;
                    }
                }
                v
            };
            match k {
                0 => ("valid", valid(n, rng)),
                1 => ("one symbol", fill(c.sym[0])),
                2 => ("random", rng.bytes(n)),
                3 => ("bad", fill(b'!')),
                4 => ("bad last", {
                    let mut v = valid(n, rng);
                    *v.last_mut()? = b'!';
                    v
                }),
                5 => ("bad first", {
                    let mut v = valid(n, rng);
                    v[0] = b'!';
                    v
                }),
                6 => ("padding", fill(b'=')),
                7 => ("spaces", fill(b' ')),
                8 => ("every other a line feed", valid(n / 2, rng).into_iter().flat_map(|c| [c, b'\n']).collect()),
                9 => ("lines of 76", {
                    let v = valid(n * 76 / 77, rng);
                    v.chunks(76).flat_map(|l| l.iter().copied().chain([b'\n'])).collect()
                }),
                10 => ("half valid, half spaces", {
                    let mut v = valid(n / 2, rng);
                    v.resize(n, b' ');
                    v
                }),
                11 => ("half spaces, half valid", {
                    let mut v = vec![b'\t'; n / 2];
                    v.extend(valid(n / 2, rng));
                    v
                }),
                12 => ("0xff", fill(0xff)),
                13 => ("half valid, half padding", {
                    let mut v = valid(n / 2, rng);
                    v.resize(n, b'=');
                    v
                }),
                14 => ("one space in the middle", {
                    let mut v = valid(n, rng);
                    v.insert(n / 2, b' ');
                    v
                }),
                15 => ("spaces here and there", {
                    let v = valid(n * 9 / 10, rng);
                    let mut w = vec![];
                    for c in v {
                        w.push(c);
                        if rng.one_in(9) {
                            w.push(*rng.pick(b" \t\r\n\x0c"));
                        }
                    }
                    w
                }),
                16 => ("line breaks of two characters", {
                    let v = valid(n * 76 / 78, rng);
                    v.chunks(76).flat_map(|l| l.iter().copied().chain([b'\r', b'\n'])).collect()
                }),
                17 => ("trailing bits set", {
                    let mut v = valid(n, rng);
                    v.truncate(v.len() / c.group * c.group - c.group);
                    v.extend_from_slice(if c.group == 8 { b"77======" } else { b"//==" });
                    v
                }),
                _ => return None,
            }
        }
    })
}

struct Run {
    src: Vec<u32>,
    dst: Vec<u32>,
    m: usize,
    n: usize,
}
impl Run {
    fn new(sem: Sem, mode: Mode, s: &[u8], e: &Exp, rng: &mut Rng) -> Self {
        let m = if mode.has_dst() { ops::fixed_dst(sem).unwrap_or(spec::need(sem, s, e)) } else { 0 };
        let mut r = Run { src: vec![0; s.len() / 4 + 17], dst: vec![0; m / 4 + 17], m, n: s.len() };
        r.src.rotate_left(rng.below(2));
        r.fill(s);
        r
    }
    fn fill(&mut self, s: &[u8]) {
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.src.as_mut_ptr().cast(), s.len()) };
    }
    fn call(&mut self, sem: Sem, mode: Mode, prior: &Prior) -> ops::Got {
        unsafe { ops::run(sem, mode, self.src.as_mut_ptr().cast(), self.n, self.dst.as_mut_ptr().cast(), self.m, prior) }
    }
}

fn pairs() -> Vec<(Sem, Mode)> {
    let mut v = vec![];
    for sem in ops::all_sems() {
        for &m in ops::modes(sem) {
            v.push((sem, m));
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
enum Shape {
    AsIs,
    Long,
    /// a short source appended to something long
    OntoLong,
}

/// Instructions a call may execute: per byte of its input (and of the contents its target already has), and in any case.
const PER_BYTE: u64 = 100;
const BASE: u64 = 40_000;

/// Stack that a call may use (the runner's own frame included), and how much is watched.
const STACK: usize = 64 << 10;
const WATCHED: usize = 640 << 10;
const MARK: u64 = 0x9d3c_57a1_e86b_f042;

#[derive(Default)]
struct Most(usize, String);
impl Most {
    fn see(&mut self, n: usize, what: impl FnOnce() -> String) {
        if n > self.0 {
            *self = Most(n, what());
        }
    }
}

#[inline(never)]
fn paint() {
    let mut a = [MARK; WATCHED / 8];
    std::hint::black_box(&mut a);
}
/// How far below the caller's frame the marks are gone (read below the stack pointer: a frame of that size would be
/// probed, which overwrites marks).
#[inline(never)]
fn depth() -> usize {
    let here = 0u8;
    let sp = std::hint::black_box(&here) as *const u8 as usize;
    let mut p = (sp & !7) - (WATCHED - 4096);
    while p < sp - 256 && unsafe { (p as *const u64).read_volatile() } == MARK {
        p += 8;
    }
    sp - p
}
/// The result of a call, and the stack it used.
#[inline(never)]
fn measured<T>(f: impl FnOnce() -> T) -> (T, usize) {
    paint();
    let r = f();
    (r, depth())
}

pub fn run(sc: Scale, seed: u64, shard: usize, of: usize) -> Outcome {
    let mut st = Stats::default();
    let (small, large) = sc.by((300, 1200), (500, 2000), (2000, 8000), (4000, 16000));
    let (mut steps, mut peak_per_byte, mut growth, mut memory) = (0u64, 0.0f64, 0.0f64, 0.0f64);
    let (mut at, mut at_g, mut at_m) = (String::new(), String::new(), String::new());
    let mut arena = vec![0u32; 1 << 18];
    let mut stack = Most::default();
    for (i, (sem, mode)) in pairs().into_iter().enumerate() {
        if i % of != shard {
            continue;
        }
        let mut rng = Rng::new(seed ^ (i as u64) << 32);
        let first = ops::modes(sem)[0] == mode;
        for k in 0.. {
            let mut got = [0u64; 2];
            let mut name = "";
            let mut lens = [0usize; 2];
            let Some(_) = family(sem, k, 64, &mut rng) else { break };
            if !first && !mode.inplace() && sc < Scale::Thorough && k != 0 && !rng.one_in(4) {
                continue;
            }
            for (j, n) in [small, large].into_iter().enumerate() {
                let n = n / 8 * 8;
                let (nm, s) = family(sem, k, n, &mut rng).unwrap();
                name = nm;
                let e = spec::expect(sem, &s);
                let mut r = Run::new(sem, mode, &s, &e, &mut rng);
                let prior = match mode {
                    Mode::AppVec | Mode::AppString => Prior { text: vec![b'p'; n / 4], spare: 0 },
                    _ => Prior::default(),
                };
                // (symbols already bound, detection done)
                let total = s.len() + prior.text.len();
                let cap = BASE + 2 * PER_BYTE * total as u64;
                ops::note(sem, mode, &s, r.dst.as_mut_ptr().cast(), r.m);
                drop(r.call(sem, mode, &prior));
                r.fill(&s);
                ops::note(sem, mode, &s, r.dst.as_mut_ptr().cast(), r.m);
                let Some(c) = step::count(cap, || drop(r.call(sem, mode, &prior))) else {
                    return Outcome::Unclear("single-stepping does not work here".into());
                };
                got[j] = c;
                lens[j] = total;
                steps += c;
                st.calls += 1;
                st.inputs += 1;
                st.seen.insert(ops::hash(ops::sem_index_fast(sem) << 8 | mode as u64, &s));
                if matches!(e, Exp::Err | Exp::Bool(false)) {
                    st.err += 1
                } else {
                    st.ok += 1
                }
                let body = |what: String| {
                    Outcome::Fail(format!(
                        "\"what\":{},\"op\":\"{sem:?}/{mode:?}\",\"input\":{},\"src_len\":{}",
                        report::esc(&what),
                        report::esc(nm),
                        s.len()
                    ))
                };
                if c > BASE + PER_BYTE * total as u64 {
                    return body(format!("{}{c} instructions executed for an input of {total} bytes", if c >= cap { "more than " } else { "" }));
                }
                if c as f64 > peak_per_byte * total as f64 && c > 4000 {
                    peak_per_byte = c as f64 / total as f64;
                    at = format!("{sem:?}/{mode:?}, {nm}, {total} bytes");
                }
                if j == 1 && lens[1] > lens[0] {
                    let f = lens[1] as f64 / lens[0] as f64;
                    let g = got[1].saturating_sub(5000) as f64 / got[0] as f64 / f;
                    if g > growth {
                        growth = g;
                        at_g = format!("{sem:?}/{mode:?}, {nm}");
                    }
                    if g > 1.5 {
                        return body(format!("{} instructions for {} bytes, but {} for {} bytes of the same kind", got[0], lens[0], got[1], lens[1]));
                    }
                } else if j == 1 && got[1] > got[0] + 5000 {
                    return body(format!("{} instructions, then {} for the same", got[0], got[1]));
                }
                // memory
                for shape in [Shape::AsIs, Shape::Long, Shape::OntoLong] {
                    let (_, s) = match shape {
                        Shape::AsIs => ("", s.clone()),
                        Shape::Long => family(sem, k, arena.len() - 4096, &mut rng).unwrap(),
                        Shape::OntoLong => family(sem, k, 64, &mut rng).unwrap(),
                    };
                    let onto;
                    let prior = if shape == Shape::OntoLong {
                        onto = Prior { text: vec![b'p'; rng.range(50_000, 70_000)], spare: rng.below(8) };
                        &onto
                    } else {
                        &prior
                    };
                    let n = s.len();
                    let e = spec::expect(sem, &s);
                    let result = match &e {
                        Exp::Bytes(b) => b.len(),
                        _ => 0,
                    };
                    let m = if mode.has_dst() { ops::fixed_dst(sem).unwrap_or(spec::need(sem, &s, &e)) } else { 0 };
                    let sp = arena.as_mut_ptr().cast::<u8>();
                    // (4 bytes per element: room for the source and, behind it, the result)
                    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), sp, n) };
                    let dp = unsafe { sp.add((n + 64) / 4 * 4) };
                    ops::note(sem, mode, &s, dp, m);
                    let (b0, q0) = (LIVE_BYTES.load(Relaxed), REQUESTED.load(Relaxed));
                    PEAK.store(b0, Relaxed);
                    ON.store(true, Relaxed);
                    let (g, deep) = measured(|| unsafe { ops::run(sem, mode, sp, n, dp, m, prior) });
                    let (peak, asked) = (PEAK.load(Relaxed) - b0, REQUESTED.load(Relaxed) - q0);
                    drop(g);
                    ON.store(false, Relaxed);
                    stack.see(deep, || format!("{sem:?}/{mode:?}, {name}, {n} bytes"));
                    if deep > STACK {
                        return body(format!("at least {deep} bytes of stack for a source of {n} bytes"));
                    }
                    let p = prior.text.len();
                    // the target that exists already, and the copies that the monitor makes of it and of the result
                    let own = if matches!(mode, Mode::AppVec | Mode::AppString) { p + result } else { result } as i64;
                    let peak = peak - own;
                    // (a target that grows may get twice the room it needs)
                    let bound = 2 * n + 3 * p + result + 1024;
                    let x = (peak.max(0) as f64) / bound as f64;
                    if x > memory {
                        memory = x;
                        at_m = format!("{sem:?}/{mode:?}, {name}: {peak} bytes for a source of {n}, existing contents of {p}, a result of {result}");
                    }
                    if peak > bound as i64 || asked > 4 * bound as u64 {
                        return Outcome::Fail(format!(
                            "\"what\":{},\"op\":\"{sem:?}/{mode:?}\",\"input\":{},\"src_len\":{n}",
                            report::esc(&format!("{peak} bytes of memory in use at once, {asked} requested in all, for a source of {n} bytes, existing contents of {p} and a result of {result}")),
                            report::esc(nm),
                        ));
                    }
                    if j == 0 || !mode.allocates() || sc < Scale::Quick || (shape == Shape::Long && !matches!(mode, Mode::AppVec | Mode::AppString)) {
                        break;
                    }
                }
                unsafe { crate::WATCH.compact() };
            }
            if first && k < 2 && st.samples.len() < 6 && rng.one_in(8) {
                st.samples.push(format!("{sem:?}/{mode:?} {name}: {} instructions for {} bytes, {} for {}", got[0], lens[0], got[1], lens[1]));
            }
        }
    }
    st.samples.push(format!("most instructions per byte: {peak_per_byte:.1} ({at}); fastest growth: {growth:.2} ({at_g}); most memory: {memory:.2} of the bound ({at_m}); most stack: {} bytes ({})", stack.0, stack.1));
    Outcome::Ok(format!("{},\"steps\":{steps}", report::stats(&st)))
}

fn cpu_time() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

/// Large inputs: eight times the input may take 28 times the time, and some milliseconds.
pub fn time(sc: Scale, seed: u64) -> Outcome {
    let mut st = Stats::default();
    let mut worst = (0.0f64, String::new());
    let mut stack = Most::default();
    for (i, (sem, mode)) in pairs().into_iter().enumerate() {
        let mut rng = Rng::new(seed ^ (i as u64) << 32);
        let first = ops::modes(sem)[0] == mode;
        for k in 0.. {
            if family(sem, k, 64, &mut rng).is_none() {
                break;
            }
            if !first && !mode.inplace() && !rng.one_in(if sc == Scale::Thorough { 2 } else { 6 }) {
                continue;
            }
            let mut last: Option<(f64, usize)> = None;
            for n in [1usize << 15, 1 << 18, 1 << 21] {
                let (name, s) = family(sem, k, n, &mut rng).unwrap();
                // the oracle's result is not needed, only an upper bound of the destination
                let m = if mode.has_dst() {
                    ops::fixed_dst(sem).unwrap_or_else(|| match sem {
                        Sem::Swap16 | Sem::Swap32 => s.len(),
                        _ => s.len() * 2 + 16,
                    })
                } else {
                    0
                };
                let mut r = Run { src: vec![0; s.len() / 4 + 17], dst: vec![0; m / 4 + 17], m, n: s.len() };
                let prior = match mode {
                    Mode::AppVec | Mode::AppString => Prior { text: vec![b'p'; n / 8], spare: 0 },
                    _ => Prior::default(),
                };
                if mode == Mode::Raw {
                    // raw destinations are exactly as long as the result
                    let e = spec::expect(sem, &s);
                    r.m = spec::need(sem, &s, &e);
                }
                let mut best = f64::MAX;
                let limit = last.map(|(t, l)| t * (s.len() as f64 / l as f64).max(1.0) * 3.5 + 0.02);
                for rep in 0..12 {
                    r.fill(&s);
                    ops::note(sem, mode, &s, r.dst.as_mut_ptr().cast(), r.m);
                    if rep == 0 {
                        let (g, deep) = measured(|| r.call(sem, mode, &prior));
                        drop(g);
                        r.fill(&s);
                        stack.see(deep, || format!("{sem:?}/{mode:?}, {name}, {} bytes", s.len()));
                        if deep > STACK {
                            return Outcome::Fail(format!(
                                "\"what\":{},\"op\":\"{sem:?}/{mode:?}\",\"input\":{},\"src_len\":{}",
                                report::esc(&format!("at least {deep} bytes of stack for a source of {} bytes", s.len())),
                                report::esc(name),
                                s.len()
                            ));
                        }
                    }
                    let t = cpu_time();
                    drop(std::hint::black_box(r.call(sem, mode, &prior)));
                    best = best.min(cpu_time() - t);
                    st.calls += 1;
                    // repeated only as long as it seems too slow
                    if rep >= 1 && limit.map_or(rep >= 3, |l| best < l) {
                        break;
                    }
                }
                st.inputs += 1;
                st.ok += 1;
                st.seen.insert(ops::hash(ops::sem_index_fast(sem) << 8 | mode as u64, &s[..s.len().min(4096)]) ^ s.len() as u64);
                if let (Some(l), Some((t, ln))) = (limit, last) {
                    let g = best / l;
                    if g > worst.0 {
                        worst = (g, format!("{sem:?}/{mode:?}, {name}, {} bytes: {:.2} ms after {:.3} ms for {ln}", s.len(), best * 1e3, t * 1e3));
                    }
                    if best > l {
                        return Outcome::Fail(format!(
                            "\"what\":{},\"op\":\"{sem:?}/{mode:?}\",\"input\":{},\"src_len\":{}",
                            report::esc(&format!("{:.1} ms of CPU time for {} bytes, but {:.3} ms for {ln} bytes of the same kind", best * 1e3, s.len(), t * 1e3)),
                            report::esc(name),
                            s.len()
                        ));
                    }
                }
                last = Some((best, s.len()));
            }
        }
    }
    st.samples.push(format!("nearest to the limit: {:.2} of it ({}); most stack: {} bytes ({})", worst.0, worst.1, stack.0, stack.1));
    Outcome::Ok(report::stats(&st))
}
