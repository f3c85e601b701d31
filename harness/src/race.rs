//! The first calls of a process, from several threads at once: every result is judged, and the order in which calls
//! began and ended is recorded.
use crate::ops::{self, Exact, Fail, Judge, Stats};
use crate::rng::Rng;
use crate::spec::{self, Sem};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use std::vec::Vec;

pub struct Seen {
    /// hash of the order of starts and ends over all threads
    pub schedule: u64,
    /// calls that began while a call of another thread was in flight
    pub overlapping: usize,
    /// first calls of an operation that began while another thread was in its first call of the same operation
    pub contended_firsts: usize,
}

fn source(sem: Sem, rng: &mut Rng) -> Vec<u8> {
    // beyond one block of every back end, now and then below
    let n = if rng.one_in(6) { rng.below(20) } else { rng.range(33, 140) };
    let d = rng.bytes(n.max(16));
    match sem {
        Sem::UuidFmtSL | Sem::UuidFmtSU | Sem::UuidFmtHL | Sem::UuidFmtHU => d[..16].to_vec(),
        Sem::UuidParse | Sem::UuidParseH => spec::uuid_fmt(&d[..16], false, true),
        Sem::UuidParseS => spec::uuid_fmt(&d[..16], true, false),
        Sem::IsAscii | Sem::FromAscii => d.iter().map(|x| x & 127).collect(),
        Sem::IsUtf32 | Sem::Swap16 | Sem::Swap32 => d.iter().take(d.len() / 4 * 4).map(|x| x & 15).collect(),
        Sem::HexEncL | Sem::HexEncU | Sem::B64Enc(_) | Sem::B32Enc(_) => d[..n].to_vec(),
        _ => {
            let mut v = crate::gen::code(sem).valid(&d[..n], rng);
            if !v.is_empty() && rng.one_in(3) {
                let k = rng.below(v.len());
                v[k] = b'!';
            }
            v
        }
    }
}

/// `ticket` must start at 0 in each process and be used for nothing else.
pub fn race(seed: u64, threads: usize, rounds: usize, st: &mut Stats) -> Result<Seen, Fail> {
    static TICKET: AtomicUsize = AtomicUsize::new(0);
    let ready = Arc::new(AtomicUsize::new(0));
    let mut rng = Rng::new(seed);
    let all = ops::all_sems();
    // three processes in four: everybody starts with the same operation; the others: with related or unrelated ones
    let first = *rng.pick(&all);
    let style = rng.below(4);
    let mut hs = Vec::new();
    for t in 0..threads {
        let ready = ready.clone();
        let mut rng = Rng::new(seed ^ (t as u64 + 1) << 32);
        let all = all.clone();
        hs.push(std::thread::spawn(move || {
            let mut mem = Exact::default();
            let mut j = Judge::new(&mut mem, rng.u64());
            let mut work = Vec::new();
            let mut last = first;
            for k in 0..rounds {
                let sem = match (k, style) {
                    (0, 1..) => first,
                    (_, 2) if rng.one_in(3) => last,
                    _ => *rng.pick(&all),
                };
                last = sem;
                let s = source(sem, &mut rng);
                let e = spec::expect(sem, &s);
                let ms = ops::modes(sem);
                let mode = ms[rng.below(ms.len())];
                let m = ops::fixed_dst(sem).unwrap_or(spec::need(sem, &s, &e));
                work.push((sem, mode, s, e, m));
            }
            let delay = if rng.one_in(2) { 0 } else { rng.below(300) };
            // a barrier that lets nobody through earlier than the others by more than a few cycles; the release and
            // acquire order only what happened before the first call
            ready.fetch_add(1, std::sync::atomic::Ordering::AcqRel);
            let mut spins = 0;
            while ready.load(std::sync::atomic::Ordering::Acquire) < threads {
                spins += 1;
                if cfg!(miri) || spins > 3000 {
                    std::thread::yield_now();
                }
                core::hint::spin_loop();
            }
            if !cfg!(miri) {
                for _ in 0..delay {
                    core::hint::spin_loop();
                }
            }
            let mut marks = Vec::with_capacity(rounds);
            for (sem, mode, s, e, m) in &work {
                let a = TICKET.fetch_add(1, Relaxed);
                let r = j.call(*sem, *mode, s, e, *m);
                let b = TICKET.fetch_add(1, Relaxed);
                marks.push((a, b, *sem));
                if r.is_err() {
                    return (r, j.st, marks);
                }
            }
            (Ok(()), j.st, marks)
        }));
    }
    let mut out = Ok(());
    let mut ev = Vec::new();
    for (t, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok((r, s, marks)) => {
                st.calls += s.calls;
                st.ok += s.ok;
                st.err += s.err;
                st.inputs += marks.len() as u64;
                ev.push(marks);
                if r.is_err() {
                    out = r;
                }
            }
            // the panic hook has printed the verdict
            Err(_) => std::process::exit(1),
        }
        let _ = t;
    }
    out?;
    let mut order = Vec::new();
    let (mut overlapping, mut contended) = (0, 0);
    for (t, m) in ev.iter().enumerate() {
        for (k, &(a, b, sem)) in m.iter().enumerate() {
            order.push((a, t, 0));
            order.push((b, t, 1));
            let others = || ev.iter().enumerate().filter(|(u, _)| *u != t).flat_map(|(_, m)| m.iter().enumerate());
            if others().any(|(_, &(c, d, _))| c < a && a < d) {
                overlapping += 1;
            }
            let mine_first = !m[..k].iter().any(|x| x.2 == sem);
            if mine_first && others().any(|(q, &(c, d, s2))| s2 == sem && q == 0 && c < b && a < d) {
                contended += 1;
            }
        }
    }
    order.sort();
    let bytes: Vec<u8> = order.iter().map(|x| (x.1 * 2 + x.2) as u8).collect();
    Ok(Seen {
        schedule: ops::hash(0, &bytes),
        overlapping,
        contended_firsts: contended,
    })
}

/// Sustained concurrent calls: all threads repeat their own inputs of a few operations (variants of one operation, or
/// unrelated ones), so that any state that calls share meets every other user of it many times.
pub fn steady(seed: u64, threads: usize, calls: usize, st: &mut Stats) -> Result<u64, Fail> {
    let mut rng = Rng::new(seed);
    let all = ops::all_sems();
    let first = *rng.pick(&all);
    let group = family(first);
    let mut sems: Vec<Sem> = if rng.one_in(4) { all.clone() } else { all.iter().copied().filter(|&x| family(x) == group).collect() };
    while sems.len() > 6 {
        let k = rng.below(sems.len());
        sems.swap_remove(k);
    }
    // short inputs meet more often; longer ones stay longer inside
    let short = rng.one_in(2);
    static INSIDE: AtomicUsize = AtomicUsize::new(0);
    let ready = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicUsize::new(0));
    let mut hs = Vec::new();
    for t in 0..threads {
        let (ready, stop, sems) = (ready.clone(), stop.clone(), sems.clone());
        let mut rng = Rng::new(seed ^ (t as u64 + 1) << 32);
        hs.push(std::thread::spawn(move || {
            let mut mem = Exact::default();
            let mut j = Judge::new(&mut mem, rng.u64());
            // one thread in two stays with one operation
            let own = sems[t % sems.len()];
            let mut work = Vec::new();
            for _ in 0..if cfg!(miri) { 3 } else { 12 } {
                let sem = if t % 2 == 0 { own } else { *rng.pick(&sems) };
                let mut s = source(sem, &mut rng);
                if short && s.len() > 24 && !matches!(sem, Sem::UuidParse | Sem::UuidParseS | Sem::UuidParseH) {
                    s.truncate(rng.below(4) * 8);
                    if matches!(sem, Sem::UuidFmtSL | Sem::UuidFmtSU | Sem::UuidFmtHL | Sem::UuidFmtHU) {
                        s = rng.bytes(16);
                    }
                }
                let e = spec::expect(sem, &s);
                let ms = ops::modes(sem);
                let mode = ms[rng.below(ms.len())];
                let m = ops::fixed_dst(sem).unwrap_or(spec::need(sem, &s, &e));
                work.push((sem, mode, s, e, m));
            }
            ready.fetch_add(1, std::sync::atomic::Ordering::AcqRel);
            while ready.load(std::sync::atomic::Ordering::Acquire) < threads {
                std::thread::yield_now();
            }
            let mut overlapping = 0u64;
            let mut r = Ok(());
            for _ in 0..calls {
                let (sem, mode, s, e, m) = &work[rng.below(work.len())];
                overlapping += (INSIDE.fetch_add(1, Relaxed) > 0) as u64;
                r = j.call(*sem, *mode, s, e, *m);
                INSIDE.fetch_sub(1, Relaxed);
                if r.is_err() || stop.load(Relaxed) == 1 {
                    stop.store(1, Relaxed);
                    break;
                }
            }
            (r, j.st, overlapping)
        }));
    }
    let mut out = Ok(());
    let mut overlapping = 0;
    for h in hs {
        match h.join() {
            Ok((r, s, o)) => {
                st.calls += s.calls;
                st.ok += s.ok;
                st.err += s.err;
                overlapping += o;
                if r.is_err() {
                    out = r;
                }
            }
            // the panic hook has printed the verdict
            Err(_) => std::process::exit(1),
        }
    }
    st.inputs += threads as u64 * 12;
    out.map(|()| overlapping)
}

fn family(sem: Sem) -> u8 {
    use Sem::*;
    match sem {
        HexEncL | HexEncU => 0,
        HexDec | HexChk => 1,
        B64Enc(_) => 2,
        B64Dec(_) | B64Chk(_) | Forg => 3,
        B64Len(_) | B32Len(_) => 4,
        B32Enc(_) => 5,
        B32Dec(_) | B32Chk(_) => 6,
        UuidParse | UuidParseS | UuidParseH => 7,
        UuidFmtSL | UuidFmtSU | UuidFmtHL | UuidFmtHU => 8,
        _ => 9,
    }
}
