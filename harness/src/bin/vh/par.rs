//! The parallel base64 encoder.
use crate::report::{hex, Outcome};
use harness::gen::Scale;
use harness::ops::{self, Arena, Fail, Mem, Stats};
use harness::rng::Rng;
use harness::spec::{self, Sem, B64, B64S};
use hex_simd::AsOut;
use std::mem::MaybeUninit;
use std::sync::Mutex;

struct One {
    pool: usize,
    v: B64,
    n: usize,
    /// destination length minus encoded length
    extra: isize,
}

fn one(o: &One, src: &[u8], want: &[u8], rng: &mut Rng, mem: &mut Arena) -> Result<(), Fail> {
    let m = (want.len() as isize + o.extra).max(0) as usize;
    let fail = |what: &str, got: String| Fail {
        what: format!("par_encode with {} threads, {:?}, {} bytes, destination {m} of {}: {what}", o.pool, o.v, o.n, want.len()),
        sem: None,
        src: src[..src.len().min(64)].to_vec(),
        dst_len: m,
        expected: if o.extra < 0 { "Err".into() } else { "the sequential encoding".into() },
        got,
    };
    let s = mem.src(src, 1, rng);
    let d = mem.dst(m, 1, rng);
    ops::note(Sem::B64Enc(o.v), ops::Mode::Slice, &src[..src.len().min(64)], d, m);
    let r = {
        let s = unsafe { std::slice::from_raw_parts(s.cast_const(), src.len()) };
        let dst: &mut [MaybeUninit<u8>] = unsafe { std::slice::from_raw_parts_mut(d.cast(), m) };
        let out = ops::b64(o.v).par_encode(s, dst.as_out());
        match out {
            Ok(x) => Some((x.as_ptr() as usize, x.len())),
            Err(_) => None,
        }
    };
    match r {
        None if o.extra < 0 => {}
        None => return Err(fail("Err although the destination is long enough", "Err".into())),
        Some((p, k)) => {
            if o.extra < 0 {
                return Err(fail("Ok although the destination is too short", format!("Ok({k} bytes)")));
            }
            if p != d as usize || k != want.len() {
                return Err(fail("returned slice has the wrong place or length", format!("{k} bytes")));
            }
            let got = unsafe { std::slice::from_raw_parts(d.cast_const(), k) };
            if got != want {
                let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap();
                return Err(fail("wrong bytes", format!("first difference at {i}: {} instead of {}", hex(&got[i..(i + 16).min(k)]), hex(&want[i..(i + 16).min(k)]))));
            }
            let rest = unsafe { std::slice::from_raw_parts(d.add(k).cast_const(), m - k) };
            if rest.iter().any(|&b| b != 0xA5) {
                return Err(fail("wrote beyond the returned prefix of the destination", "modified".into()));
            }
        }
    }
    let now = unsafe { std::slice::from_raw_parts(s.cast_const(), src.len()) };
    if now != src {
        return Err(fail("modified the source", "modified".into()));
    }
    mem.check().map_err(|w| fail(w, "modified".into()))
}

/// Plain threads at the same time, each with a pool of its own, sharing one, or with the global one.
fn outside(sc: Scale, st: &mut Stats, rng: &mut Rng) -> Result<(), Fail> {
    for _ in 0..sc.by(0, 1, 6, 40) {
        let shared = std::sync::Arc::new(rayon::ThreadPoolBuilder::new().num_threads(rng.range(2, 5)).build().unwrap());
        let rounds = sc.by(1, 3, 12, 30);
        let hs: Vec<_> = (0..4u64)
            .map(|t| {
                let seed = rng.u64();
                let shared = shared.clone();
                std::thread::spawn(move || {
                    let mut rng = Rng::new(seed);
                    let mut mem = Arena::new();
                    let pool = match t {
                        0 => None,
                        1 | 2 => Some(shared),
                        _ => Some(std::sync::Arc::new(rayon::ThreadPoolBuilder::new().num_threads(rng.range(1, 9)).build().unwrap())),
                    };
                    let p = pool.as_ref().map_or(rayon::current_num_threads(), |p| p.current_num_threads());
                    for _ in 0..rounds {
                        let n = rng.range(0, p * 4096 * 2) + if rng.one_in(2) { p * 4096 } else { 0 };
                        let src = rng.bytes(n);
                        let v = *rng.pick(&B64S);
                        let want = spec::b64_encode(&src, v);
                        let extra = if want.is_empty() || rng.one_in(2) { 0 } else { -1 };
                        let o = One { pool: p, v, n, extra };
                        mem.fill_dst();
                        match &pool {
                            None => one(&o, &src, &want, &mut rng, &mut mem)?,
                            Some(q) => q.install(|| one(&o, &src, &want, &mut rng, &mut mem))?,
                        }
                    }
                    Ok(rounds as u64)
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(r) => st.calls += r?,
                Err(e) => std::panic::resume_unwind(e),
            }
        }
    }
    Ok(())
}

pub fn run(sc: Scale, seed: u64) -> Outcome {
    let mut st = Stats::default();
    let mut rng = Rng::new(seed);
    let pools: &[usize] = sc.by(&[2][..], &[1, 2, 3], &[1, 2, 3, 4, 5, 7, 8, 16], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32]);
    let mut parallel = 0u64;
    // outside any pool: the global one
    {
        let p = rayon::current_num_threads();
        let mut mem = Arena::new();
        for k in 0..sc.by(1, 4, 30, 200) {
            let n = rng.below(p * 4096 * 3);
            let src = rng.bytes(n);
            let v = B64S[k % 4];
            let want = spec::b64_encode(&src, v);
            for extra in [0, rng.range(1, 100) as isize, -1] {
                if extra < 0 && want.is_empty() {
                    continue;
                }
                mem.fill_dst();
                if let Err(f) = one(&One { pool: p, v, n, extra }, &src, &want, &mut rng, &mut mem) {
                    return Outcome::from_judge(st, Err(f));
                }
                st.calls += 1;
            }
        }
    }
    // machines with many processors: few inputs each
    for &p in sc.by(&[][..], &[], &[33, 64, 65, 100, 128, 129, 256, 300], &[33, 40, 48, 63, 64, 65, 96, 100, 127, 128, 129, 192, 256, 257, 300, 384, 512, 513]) {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(p).build().unwrap();
        let base = p * 4096;
        let mut mem = Arena::new();
        let r: Result<(), Fail> = pool.install(|| {
            for k in 0..sc.by(0, 0, 8, 24) {
                let n = match k % 4 {
                    0 => base + rng.below(4),
                    1 => rng.range(base, base * 2),
                    2 => (base / 3 + 1 + rng.below(p)) * 3,
                    _ => base.max(1 << 20) + rng.below(1 << 20),
                };
                let src = rng.bytes(n);
                let v = B64S[(k + p) % 4];
                let want = spec::b64_encode(&src, v);
                st.inputs += 1;
                parallel += 1;
                st.seen.insert(ops::hash(v as u64 ^ (p as u64) << 32, &src));
                for extra in [0, 1 + rng.below(99) as isize, -1] {
                    mem.fill_dst();
                    one(&One { pool: p, v, n, extra }, &src, &want, &mut rng, &mut mem)?;
                    st.calls += 1;
                }
            }
            Ok(())
        });
        if let Err(f) = r {
            return Outcome::from_judge(st, Err(f));
        }
    }
    if let Err(f) = outside(sc, &mut st, &mut rng) {
        return Outcome::from_judge(st, Err(f));
    }
    for &p in pools {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(p).build().unwrap();
        // around the point where work is split, every remainder modulo 3 and modulo the chunk size
        let base = p * 4096;
        let mut lens: Vec<usize> = vec![0, 1, 2, 3, 100, 4095, base.saturating_sub(1)];
        lens.extend(base..base + sc.by(1, 4, 3 * p + 7, 6 * p + 40));
        for _ in 0..sc.by(2, 8, 90, 500) {
            lens.push(rng.range(base.saturating_sub(300), base * 4));
        }
        for k in 1..sc.by(1, 2, 40, 120) {
            // multiples of three whose group count leaves every remainder modulo p
            lens.push((base / 3 + 1 + k) * 3);
            lens.push((base / 3 + 1 + k) * 3 + rng.range(1, 2));
        }
        if sc >= Scale::Quick {
            lens.extend([1 << 18, (1 << 20) + 1, 3 << 17]);
            // any order of magnitude
            for _ in 0..sc.by(0, 0, 6, 30) {
                let k = sc.by(0, 0, 22, 24);
                let top = 1usize << rng.range(13, k);
                lens.push(base + rng.below(top));
            }
        }
        let (s0, s1) = (rng.u64(), rng.u64());
        let r: Result<Stats, Fail> = pool.install(|| {
            let mut st = Stats::default();
            let mut rng = Rng::new(s0);
            let mut mem = Arena::new();
            for &n in &lens {
                let src = rng.bytes(n);
                for v in B64S {
                    let want = spec::b64_encode(&src, v);
                    st.inputs += 1;
                    if n >= base && p > 1 {
                        parallel += 1;
                    }
                    st.seen.insert(ops::hash(v as u64 ^ (p as u64) << 32, &src));
                    let e = rng.range(1, 100) as isize;
                    let mut all = vec![0, e, -1];
                    if rng.one_in(3) {
                        all.extend([-(rng.below(want.len() + 1) as isize), -(want.len() as isize)]);
                    }
                    for extra in all {
                        if extra < 0 && want.is_empty() {
                            continue;
                        }
                        let o = One { pool: p, v, n, extra };
                        mem.fill_dst();
                        one(&o, &src, &want, &mut rng, &mut mem)?;
                        st.calls += 1;
                        if extra < 0 {
                            st.err += 1;
                            st.short_dst += 1;
                        } else {
                            st.ok += 1;
                        }
                    }
                }
            }
            if !lens.is_empty() {
                st.samples.push(format!("pool of {p}: {} lengths from {} to {}, e.g. {:?}", lens.len(), lens.iter().min().unwrap(), lens.iter().max().unwrap(), &lens[lens.len() / 2..lens.len() / 2 + 4.min(lens.len() - lens.len() / 2)]));
            }
            Ok(st)
        });
        match r {
            Ok(s) => {
                st.calls += s.calls;
                st.inputs += s.inputs;
                st.ok += s.ok;
                st.err += s.err;
                st.short_dst += s.short_dst;
                if st.samples.len() < 6 {
                    st.samples.extend(s.samples);
                }
                // pools differ, so the cases do
                st.seen.add(s.seen.len());
            }
            Err(f) => return Outcome::from_judge(st, Err(f)),
        }
        // several callers inside one pool at the same time
        let bad: Mutex<Option<Fail>> = Mutex::new(None);
        let rounds = sc.by(1, 2, 12, 60);
        let total = std::sync::atomic::AtomicU64::new(0);
        pool.scope(|sco| {
            for t in 0..4u64 {
                let bad = &bad;
                let total = &total;
                sco.spawn(move |_| {
                    let mut rng = Rng::new(s1 ^ t);
                    let mut mem = Arena::new();
                    for _ in 0..rounds {
                        let n = rng.range(base, base * 3);
                        let src = rng.bytes(n);
                        let v = *rng.pick(&B64S);
                        let want = spec::b64_encode(&src, v);
                        let o = One { pool: p, v, n, extra: 0 };
                        total.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if let Err(f) = one(&o, &src, &want, &mut rng, &mut mem) {
                            *bad.lock().unwrap() = Some(f);
                            return;
                        }
                    }
                });
            }
        });
        st.calls += total.load(std::sync::atomic::Ordering::Relaxed);
        if let Some(f) = bad.into_inner().unwrap() {
            return Outcome::from_judge(st, Err(f));
        }
    }
    match Outcome::from_judge(st, Ok(())) {
        Outcome::Ok(s) => Outcome::Ok(format!("{s},\"split_inputs\":{parallel}")),
        o => o,
    }
}
