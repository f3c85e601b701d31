//! Deterministic call traces: the same generated inputs through every entry point, one digest per block of calls, so
//! that runs of different builds and back ends can be compared offline. No oracle is involved.
use crate::gen::{self, Scale, R};
use crate::ops::{self, Got, Mem, Prior};
use crate::rng::Rng;
use crate::spec::{self, Exp, Sem};
use alloc::vec::Vec;

pub fn result_hash(h: u64, g: &Got, base: usize, bytes: &[u8]) -> u64 {
    match g {
        Got::Err => ops::hash(h ^ 1, &[]),
        Got::Unit => ops::hash(h ^ 2, &[]),
        Got::Bool(b) => ops::hash(h ^ 3, &[*b as u8]),
        Got::Len(n) => ops::hash(h ^ 4, &(*n as u64).to_le_bytes()),
        Got::At(p, n) => ops::hash(ops::hash(h ^ 5, bytes) ^ *n as u64, &((*p - base) as u64).to_le_bytes()),
        Got::Owned(v) => ops::hash(h ^ 6, v),
        Got::Bad(_) => ops::hash(h ^ 7, &[]),
    }
}

/// How a call ended: a digest of what it returned, or a panic.
pub struct Tracer<'m> {
    pub mem: &'m mut dyn Mem,
    pub rng: Rng,
    pub block: u64,
    pub per_block: u64,
    pub n: u64,
    pub h: u64,
    /// receives (block, digest)
    pub out: &'m mut dyn FnMut(u64, u64),
    /// receives (call index, digest, sem, mode index, source, dst length) for every call of `detail`
    pub detail: Option<u64>,
    pub log: &'m mut dyn FnMut(u64, u64, Sem, ops::Mode, &[u8], usize, &Got),
    pub catch: Option<fn(&mut dyn FnMut()) -> bool>,
    /// last finished input, for progress and violation reports
    pub inputs: u64,
    pub seen: ops::Seen,
}

impl Tracer<'_> {
    fn call(&mut self, sem: Sem, mode: ops::Mode, s: &[u8], m: usize) {
        let el = spec::elem(sem);
        let src = self.mem.src(s, el, &mut self.rng);
        let dst = if mode.has_dst() { self.mem.dst(m, el, &mut self.rng) } else { core::ptr::null_mut() };
        let mut prior = Prior::default();
        if matches!(mode, ops::Mode::AppVec | ops::Mode::AppString) {
            prior.text = alloc::vec![b'p'; self.rng.below(20)];
            prior.spare = self.rng.below(40);
        }
        ops::note(sem, mode, s, dst, m);
        let mut g = Got::Bad("panic");
        let n = s.len();
        match self.catch {
            Some(c) => {
                c(&mut || g = unsafe { ops::run(sem, mode, src, n, dst, m, &prior) });
            }
            None => g = unsafe { ops::run(sem, mode, src, n, dst, m, &prior) },
        }
        let base = if mode.has_dst() { dst } else { src };
        let lim = if mode.has_dst() { m } else { n };
        let bytes: &[u8] = match g {
            Got::At(p, k) if p == base as usize && k <= lim => unsafe {
                core::slice::from_raw_parts(base.cast_const(), k)
            },
            _ => &[],
        };
        // error texts and unspecified lengths are not part of the result
        let h = result_hash(ops::sem_index_fast(sem) << 8 ^ mode as u64, &g, base as usize, bytes);
        if self.detail == Some(self.block) {
            (self.log)(self.n, h, sem, mode, s, m, &g);
        }
        let _ = self.mem.check();
        self.h = crate::rng::mix(self.h ^ h);
        self.n += 1;
        if self.n % self.per_block == 0 {
            self.flush();
        }
    }
    fn flush(&mut self) {
        (self.out)(self.block, self.h);
        self.block += 1;
        self.h = 0;
    }

    pub fn run(&mut self, sc: Scale, seed: u64, filter: &dyn Fn(Sem) -> bool) -> R {
        for sem in ops::all_sems() {
            if !filter(sem) {
                continue;
            }
            // the draws below must not depend on results, or one difference would desynchronise everything after it
            let mut rng = Rng::new(seed ^ ops::sem_index_fast(sem) << 40);
            let mut pick = Rng::new(seed ^ 77 ^ ops::sem_index_fast(sem) << 40);
            gen::inputs(sem, sc, &mut rng, &mut |s| {
                self.inputs += 1;
                if !s.is_empty() {
                    self.seen.insert(ops::hash(ops::sem_index_fast(sem), s));
                }
                let all = ops::modes(sem);
                let k = pick.below(all.len());
                let room = pick.below(64);
                let short = pick.below(4) == 0;
                for (i, &mode) in all.iter().enumerate() {
                    if i != 0 && i != k {
                        continue;
                    }
                    if !mode.has_dst() {
                        self.call(sem, mode, s, 0);
                    } else if let Some(f) = ops::fixed_dst(sem) {
                        self.call(sem, mode, s, f);
                    } else {
                        let e = spec::expect(sem, s);
                        let need = match &e {
                            Exp::Err => s.len(),
                            e => spec::need(sem, s, e),
                        };
                        let el = spec::elem(sem);
                        self.call(sem, mode, s, need + if i == k && mode != ops::Mode::Raw { room * el } else { 0 });
                        let swap = matches!(sem, Sem::Swap16 | Sem::Swap32);
                        if short && need > 0 && mode != ops::Mode::Raw && (!swap || self.catch.is_some()) {
                            self.call(sem, mode, s, room.min(need / el - 1) * el);
                        }
                    }
                }
                Ok(())
            })?;
            if self.n % self.per_block != 0 {
                self.n = (self.n / self.per_block + 1) * self.per_block;
                self.flush();
            }
        }
        Ok(())
    }
}

pub fn digest_all(v: &[u64]) -> u64 {
    let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    ops::hash(0, &b)
}
