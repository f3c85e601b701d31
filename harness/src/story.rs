//! Long histories of calls in one process: the same memory with ever other contents, other operations, lengths and outcomes
//! before each call. What a call returns may depend on its arguments only.
use crate::gen;
use crate::ops::{self, Fail, Got, Mode, Prior, Stats};
use crate::rng::Rng;
use crate::spec::{self, Exp, Sem};
use alloc::format;
use alloc::string::String;
use alloc::vec::Vec;

pub struct Case {
    pub s: Vec<u8>,
    pub e: Exp,
    /// destination length (for modes that have one)
    pub m: usize,
}

fn source(sem: Sem, n: usize, rng: &mut Rng) -> Vec<u8> {
    let d = rng.bytes(n.max(16));
    match sem {
        Sem::UuidFmtSL | Sem::UuidFmtSU | Sem::UuidFmtHL | Sem::UuidFmtHU => d[..16].to_vec(),
        Sem::UuidParse | Sem::UuidParseH | Sem::UuidParseS => {
            let simple = rng.one_in(2) ^ (sem == Sem::UuidParseH);
            let mut v = spec::uuid_fmt(&d[..16], simple, !simple);
            match rng.below(6) {
                0 => {
                    let k = rng.below(v.len());
                    v[k] = *rng.pick(b"-gG{ ");
                }
                1 if sem == Sem::UuidParse => {
                    v.insert(0, b'{');
                    v.push(b'}');
                }
                2 => v.truncate(n),
                _ => {}
            }
            v
        }
        Sem::IsAscii | Sem::FromAscii => {
            let mut v: Vec<u8> = d[..n].iter().map(|x| x & 127).collect();
            if !v.is_empty() && rng.one_in(2) {
                let k = rng.below(v.len());
                v[k] |= 128;
            }
            v
        }
        Sem::IsUtf32 => {
            let mut v: Vec<u8> = (0..n / 4).flat_map(|_| (rng.below(0xd800) as u32).to_le_bytes()).collect();
            if !v.is_empty() && rng.one_in(2) {
                let k = rng.below(v.len() / 4) * 4;
                v[k + 1] = 0xd8;
            }
            v
        }
        Sem::Swap16 | Sem::Swap32 => d[..n / 4 * 4].to_vec(),
        Sem::HexEncL | Sem::HexEncU | Sem::B64Enc(_) | Sem::B32Enc(_) => d[..n].to_vec(),
        _ => {
            let mut v = gen::code(sem).valid(&d[..n], rng);
            if !v.is_empty() {
                let k = rng.below(v.len());
                match rng.below(8) {
                    0 => v[k] = *rng.pick(b"!=\0-_+\xff"),
                    1 => v.truncate(k),
                    2 if sem == Sem::Forg => {
                        for _ in 0..rng.range(1, 9) {
                            let k = rng.below(v.len());
                            v.insert(k, *rng.pick(b"\n\r\t \x0c"));
                        }
                    }
                    3 => v[k] = rng.u8(),
                    _ => {}
                }
            }
            v
        }
    }
}

/// A case for every way of calling; one in eight destinations is too short.
pub fn case(sem: Sem, mode: Mode, n: usize, rng: &mut Rng) -> Case {
    let s = source(sem, n, rng);
    let mut e = spec::expect(sem, &s);
    let need = spec::need(sem, &s, &e);
    let mut m = ops::fixed_dst(sem).unwrap_or(need);
    let el = spec::elem(sem);
    if mode.has_dst() && mode != Mode::Raw && ops::fixed_dst(sem).is_none() {
        match rng.below(8) {
            0 if need > 0 && el == 1 => {
                m = rng.below(need);
                e = Exp::Err;
            }
            1 => m += rng.range(1, 40) * el,
            _ => {}
        }
    }
    Case { s, e, m }
}

pub struct Teller {
    pub src: Vec<u32>,
    pub dst: Vec<u32>,
    pub prior: Prior,
    /// the latest calls
    recent: [(u64, u8, usize, bool); 8],
    pub n: u64,
    /// distinct (previous call, this call) pairs: operation, entry point, outcome
    pub pairs: ops::Seen,
}

impl Teller {
    pub fn new(room: usize) -> Self {
        Teller {
            src: alloc::vec![0; room / 4 + 1],
            dst: alloc::vec![0; room / 2 + 32],
            prior: Prior::default(),
            recent: [(0, 0, 0, false); 8],
            n: 0,
            pairs: ops::Seen::new(),
        }
    }

    pub fn tell(&mut self, sem: Sem, mode: Mode, c: &Case, st: &mut Stats) -> Result<(), Fail> {
        let (sp, dp) = (self.src.as_mut_ptr().cast::<u8>(), self.dst.as_mut_ptr().cast::<u8>());
        assert!(c.s.len() <= self.src.len() * 4 && c.m <= self.dst.len() * 4);
        unsafe { core::ptr::copy_nonoverlapping(c.s.as_ptr(), sp, c.s.len()) };
        ops::note(sem, mode, &c.s, dp, c.m);
        let g = unsafe { ops::run(sem, mode, sp, c.s.len(), dp, c.m, &self.prior) };
        let base = if mode.has_dst() { dp } else { sp };
        let lim = if mode.has_dst() { c.m } else { c.s.len() };
        let slice: &[u8] = match g {
            Got::At(p, n) if p == base as usize && n <= lim => unsafe { core::slice::from_raw_parts(base.cast_const(), n) },
            _ => &[],
        };
        st.calls += 1;
        let ok = !matches!(c.e, Exp::Err | Exp::Bool(false));
        if ok {
            st.ok += 1
        } else {
            st.err += 1
        }
        let me = ops::sem_index_fast(sem);
        if !ops::agrees(sem, &g, &c.e, base as usize, slice) {
            return Err(Fail {
                what: format!("a call returns something else than as the only call of a process (call {} of this history; the calls before it: {})", self.n, self.show()),
                sem: Some((sem, mode)),
                src: c.s.clone(),
                dst_len: c.m,
                expected: ops::show_exp(&c.e),
                got: ops::show_got(&g, slice),
            });
        }
        let k = (self.n % 8) as usize;
        let p = self.recent[(k + 7) % 8];
        self.recent[k] = (me, mode as u8, c.s.len(), ok);
        self.n += 1;
        if self.n < 400_000 || self.n % 16 == 0 {
            self.pairs.insert(crate::rng::mix(p.0 << 40 | (p.1 as u64) << 32 | (p.3 as u64) << 30 | me << 16 | (mode as u64) << 8 | ok as u64));
        }
        Ok(())
    }

    fn show(&self) -> String {
        let mut o = String::new();
        for d in (1..=8).rev() {
            if self.n >= d {
                let (s, m, n, ok) = self.recent[((self.n - d) % 8) as usize];
                let name = ops::sem_from_index(s as usize).map(|s| format!("{s:?}")).unwrap_or_default();
                o.push_str(&format!("{name}/{m} of {n} bytes {}; ", if ok { "Ok" } else { "Err" }));
            }
        }
        o
    }
}

pub fn pairs() -> Vec<(Sem, Mode)> {
    let mut v = Vec::new();
    for sem in ops::all_sems() {
        for &m in ops::modes(sem) {
            v.push((sem, m));
        }
    }
    v
}

/// The inputs of one chapter: at one length mostly, and near duplicates.
fn cast(sem: Sem, mode: Mode, rng: &mut Rng) -> Vec<Case> {
    let n = *rng.pick(&[20usize, 32, 40, 64, 100]);
    let mut cases: Vec<Case> = (0..32).map(|_| case(sem, mode, n, rng)).collect();
    for _ in 0..16 {
        let n = rng.below(130);
        cases.push(case(sem, mode, n, rng));
    }
    // near duplicates: a bit of one byte (often the first or one of the last), one longer, one shorter
    for k in 0..24 {
        let mut c = case(sem, mode, n, rng);
        c.s = cases[k].s.clone();
        if !c.s.is_empty() && ops::fixed_dst(sem).is_none_or(|d| d == 16) {
            let len = c.s.len();
            let i = match rng.below(4) {
                0 => 0,
                1 => len - 1,
                2 => len - 1 - rng.below(len.min(8)),
                _ => rng.below(len),
            };
            match rng.below(5) {
                0 if spec::elem(sem) == 1 => c.s.truncate(len - 1),
                1 if len < 120 && spec::elem(sem) == 1 => c.s.push(b'A'),
                _ => c.s[i] ^= 1 << rng.below(8),
            }
        }
        c.e = spec::expect(sem, &c.s);
        c.m = ops::fixed_dst(sem).unwrap_or(spec::need(sem, &c.s, &c.e));
        cases.push(c);
    }
    cases
}

/// One entry point again and again: at one address, mostly at one length, with contents that differ; also long runs of
/// successes, of failures, of one input, of pairs that differ little, followed by something else.
pub fn rolling(t: &mut Teller, sem: Sem, mode: Mode, count: usize, rng: &mut Rng, st: &mut Stats) -> Result<(), Fail> {
    let mut i = 0;
    while i < count {
        let cases = cast(sem, mode, rng);
        st.inputs += cases.len() as u64;
        for c in &cases {
            st.seen.insert(ops::hash(ops::sem_index_fast(sem) << 8 | mode as u64, &c.s));
        }
        let good = |c: &Case| !matches!(c.e, Exp::Err | Exp::Bool(false));
        let plain = |c: &Case| good(c) && !c.s.iter().any(|b| b.is_ascii_whitespace());
        let pick = |f: &dyn Fn(&Case) -> bool| -> Vec<usize> { (0..cases.len()).filter(|&k| f(&cases[k])).collect() };
        let all = pick(&|_| true);
        let classes = [pick(&good), pick(&plain), pick(&|c| !good(c)), pick(&|c| good(c) && !plain(c))];
        let chapter = i + count / 40 + 200;
        while i < chapter {
            let pair = [rng.below(24), 0];
            let pair = [pair[0], pair[0] + 48];
            let kind = rng.below(10);
            let among: &[usize] = match kind {
                0..=3 if !classes[kind].is_empty() => &classes[kind],
                4 => &pair,
                5 => &pair[rng.below(2)..][..1],
                _ => &all,
            };
            // most runs are short
            let run = (1usize << rng.below(16)).min(count / 60 + 2);
            let run = 1 + rng.below(run);
            let mut k = *rng.pick(among);
            for r in 0..run {
                t.tell(sem, mode, &cases[k], st)?;
                // the same again now and then
                if r % 7 != 0 {
                    k = *rng.pick(among);
                }
            }
            i += run;
        }
    }
    Ok(())
}

/// All operations in turn, long inputs between short ones.
pub fn mixed(t: &mut Teller, count: usize, room: usize, rng: &mut Rng, st: &mut Stats, between: &mut dyn FnMut(&mut Rng, usize) -> Result<(), Fail>) -> Result<(), Fail> {
    let all = pairs();
    let mut last = all[0];
    let mut kept: Vec<(Sem, Mode, Case)> = Vec::new();
    for i in 0..count {
        if !kept.is_empty() && rng.one_in(3) {
            // an earlier input again
            let k = rng.below(kept.len());
            let (sem, mode, c) = &kept[k];
            t.tell(*sem, *mode, c, st)?;
        } else {
            let (sem, mode) = match rng.below(4) {
                0 => last,
                // another entry point of the same operation
                1 => (last.0, *rng.pick(ops::modes(last.0))),
                _ => *rng.pick(&all),
            };
            last = (sem, mode);
            let n = match rng.below(16) {
                0 => rng.below(room / 4),
                1 => rng.below(2000),
                2..=5 => rng.below(16),
                _ => rng.below(200),
            };
            let c = case(sem, mode, n, rng);
            st.inputs += 1;
            st.seen.insert(ops::hash(ops::sem_index_fast(sem) << 8 | mode as u64, &c.s));
            t.tell(sem, mode, &c, st)?;
            if c.s.len() < 300 {
                if kept.len() < 64 {
                    kept.push((sem, mode, c));
                } else {
                    let k = rng.below(64);
                    kept[k] = (sem, mode, c);
                }
            }
        }
        between(rng, i)?;
    }
    Ok(())
}
