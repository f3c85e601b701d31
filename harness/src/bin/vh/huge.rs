//! Inputs of more than 4 GiB. The source is one block of content mapped again and again (read-only); the results are
//! as periodic as it is, and are compared in full.
use crate::report::Outcome;
use harness::gen::Scale;
use harness::periodic::{bad_byte, case, RAW};
use harness::ops::{self, Fail, Got, Mode, Prior, Stats};
use harness::rng::Rng;
use harness::spec::{self, Exp, Sem};

const CANARY: u8 = 0xA5;
const PAGE: usize = 4096;

struct Big {
    p: *mut u8,
    map: usize,
    block: usize,
    blocks: usize,
    wins: Vec<usize>,
}

unsafe fn map(at: *mut u8, len: usize, prot: i32, flags: i32, fd: i32) -> *mut u8 {
    let p = libc::mmap(at.cast(), len, prot, flags, fd, 0);
    if p == libc::MAP_FAILED {
        crate::report::finish(Outcome::Unclear(format!("mmap of {len} bytes failed")));
    }
    p.cast()
}

impl Big {
    /// `blocks` times `content`, then a last block that is not shared. The blocks `wins` can be written to.
    fn new(content: &[u8], blocks: usize, tail: &[u8], wins: &[usize]) -> Big {
        unsafe {
            let block = content.len();
            assert!(block % PAGE == 0 && tail.len() <= block);
            let fd = libc::memfd_create(c"block".as_ptr(), libc::MFD_CLOEXEC);
            assert!(fd >= 0 && libc::ftruncate(fd, block as i64) == 0);
            let total = (blocks + 1) * block + PAGE;
            let p = map(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1);
            let rw = libc::PROT_READ | libc::PROT_WRITE;
            let first = map(std::ptr::null_mut(), block, rw, libc::MAP_SHARED, fd);
            std::ptr::copy_nonoverlapping(content.as_ptr(), first, block);
            libc::munmap(first.cast(), block);
            let mut b = Big { p, map: total, block, blocks, wins: wins.iter().copied().filter(|&w| w < blocks).collect() };
            b.wins.sort_unstable();
            b.wins.dedup();
            for k in 0..blocks {
                let at = p.add(k * block);
                if b.wins.binary_search(&k).is_ok() {
                    map(at, block, rw, libc::MAP_PRIVATE | libc::MAP_FIXED, fd);
                } else {
                    map(at, block, libc::PROT_READ, libc::MAP_SHARED | libc::MAP_FIXED | libc::MAP_POPULATE, fd);
                }
            }
            let last = p.add(blocks * block);
            map(last, block, rw, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED, -1);
            std::slice::from_raw_parts_mut(last, block).fill(CANARY);
            std::ptr::copy_nonoverlapping(tail.as_ptr(), last, tail.len());
            libc::close(fd);
            b
        }
    }
    fn at(&self, k: usize) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p.add(k * self.block), self.block) }
    }
    /// What differs from the expected contents.
    fn differs(&self, content: &[u8], tail: &[u8]) -> Option<String> {
        let diff = |name: String, at: usize, got: &[u8], want: &[u8]| {
            let k = got.iter().zip(want).position(|(a, b)| a != b)?;
            Some(format!("{name}: byte {} is {:#x} instead of {:#x}", at + k, got[k], want[k]))
        };
        for &w in &self.wins {
            if let Some(s) = diff(format!("block {w}"), w * self.block, self.at(w), content) {
                return Some(s);
            }
        }
        if let Some(k) = (0..self.blocks).find(|k| self.wins.binary_search(k).is_err()) {
            if let Some(s) = diff("a repeated block".into(), k * self.block, self.at(k), content) {
                return Some(s);
            }
        }
        let mut last = tail.to_vec();
        last.resize(self.block, CANARY);
        diff("the last block".into(), self.blocks * self.block, self.at(self.blocks), &last)
    }
}
impl Drop for Big {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.p.cast(), self.map) };
    }
}

/// Ordinary memory that ends before an unmapped page.
struct Plain {
    p: *mut u8,
    base: *mut u8,
    map: usize,
}
impl Plain {
    fn new(m: usize) -> Plain {
        let map_len = m.div_ceil(PAGE) * PAGE + 2 * PAGE;
        unsafe {
            let base = map(std::ptr::null_mut(), map_len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1);
            libc::madvise(base.cast(), map_len - PAGE, libc::MADV_HUGEPAGE);
            libc::mprotect(base.add(map_len - PAGE).cast(), PAGE, libc::PROT_NONE);
            // 8-byte aligned
            let p = base.add((map_len - PAGE - m) / 8 * 8);
            std::slice::from_raw_parts_mut(p.add(m), 8.min(base.add(map_len - PAGE) as usize - p as usize - m)).fill(CANARY);
            Plain { p, base, map: map_len }
        }
    }
    fn beyond(&self, m: usize) -> Option<String> {
        let end = self.base as usize + self.map - PAGE;
        let rest = unsafe { std::slice::from_raw_parts(self.p.add(m).cast_const(), end - self.p as usize - m) };
        let before = unsafe { std::slice::from_raw_parts(self.base.cast_const(), self.p as usize - self.base as usize) };
        (rest.iter().any(|&c| c != CANARY) || before.iter().any(|&c| c != 0)).then(|| "wrote outside the destination".into())
    }
}
impl Drop for Plain {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base.cast(), self.map) };
    }
}

/// Another implementation to call instead of an operation's entry point.
type Call<'a> = Option<&'a mut dyn FnMut(&[u8], &mut [u8]) -> Got>;

fn one(sem: Sem, mode: Mode, n: usize, mut other: Call, rng: &mut Rng, st: &mut Stats) -> Result<(), Fail> {
    let c = case(sem, n, rng);
    let near = |x: usize, b: usize| [(x / b).wrapping_sub(1), x / b, x / b + 1];
    let mut wins = vec![0, c.blocks.wrapping_sub(1), rng.below(c.blocks.max(1))];
    for x in [1usize << 31, 1 << 32, 1 << 33] {
        wins.extend(near(x, c.src.len()));
        if !c.dst.is_empty() {
            wins.extend(near(x, c.dst.len()));
        }
    }
    let owned = mode.allocates();
    let inplace = mode.inplace();
    let src = if inplace {
        // memory of its own, all of it
        Big::new(&c.src, c.blocks, &c.src_tail, &(0..c.blocks).collect::<Vec<_>>())
    } else {
        Big::new(&c.src, c.blocks, &c.src_tail, &wins)
    };
    let need = c.dst_len();
    let len = c.src_len();
    // the forgiving decoder wants a destination as long as the source
    let m = match sem {
        Sem::Forg => len,
        _ => need,
    };
    let dst = mode.has_dst().then(|| Plain::new(m));
    let dp = dst.as_ref().map_or(std::ptr::null_mut(), |d| d.p);
    let fail = |what: String| Fail {
        what: format!("{what}; a source of {len} bytes that repeats {} bytes {} times, and {} more", c.src.len(), c.blocks, c.src_tail.len()),
        sem: Some((sem, mode)),
        src: c.src[..64].to_vec(),
        dst_len: m,
        expected: "as for short inputs".into(),
        got: String::new(),
    };
    let mut call = |m: usize| {
        ops::note(sem, mode, &c.src[..64], dp, m);
        if let Some(f) = &mut other {
            return unsafe { f(std::slice::from_raw_parts(src.p, len), std::slice::from_raw_parts_mut(dp, m)) };
        }
        unsafe { ops::run(sem, mode, src.p, len, dp, m, &Prior::default()) }
    };
    // a short destination, then a bad byte in turn in some windows and in the last block, then the whole
    if mode.has_dst() && !matches!(mode, Mode::Raw) && !matches!(sem, Sem::Swap16 | Sem::Swap32) {
        st.calls += 1;
        if !matches!(call(m - 1), Got::Err) {
            return Err(fail("a destination that is one byte short is accepted".into()));
        }
    }
    if let (Some(x), false) = (bad_byte(sem), owned || inplace) {
        let e = spec::elem(sem);
        let mut spots: Vec<(usize, usize)> = src.wins.iter().rev().take(3).map(|&w| (w, rng.below(c.src.len()))).collect();
        if !c.src_tail.is_empty() {
            spots.push((c.blocks, rng.below(c.src_tail.len().saturating_sub(8).max(1))));
        }
        for (w, k) in spots {
            let k = if e > 1 { k / e * e + e - 1 } else { k };
            let b = src.at(w);
            let old = std::mem::replace(&mut b[k], x);
            st.calls += 1;
            st.err += 1;
            let g = call(m);
            if !matches!(g, Got::Err | Got::Bool(false)) {
                return Err(fail(format!("a bad byte at {} is not noticed", w * c.src.len() + k)));
            }
            src.at(w)[k] = old;
        }
    }
    let g = call(m);
    st.calls += 1;
    st.inputs += 1;
    st.ok += 1;
    st.seen.insert(ops::hash(ops::sem_index_fast(sem), &n.to_le_bytes()));
    let content = |p: &[u8]| -> Option<String> {
        if p.len() != need {
            return Some(format!("{} bytes instead of {need}", p.len()));
        }
        for k in 0..c.blocks {
            if p[k * c.dst.len()..][..c.dst.len()] != c.dst[..] {
                return Some(format!("wrong bytes within {}..{}", k * c.dst.len(), (k + 1) * c.dst.len()));
            }
        }
        (p[c.blocks * c.dst.len()..] != c.dst_tail[..]).then(|| "wrong bytes at the end".into())
    };
    let ok = match g {
        Got::At(p, k) => {
            let want = if mode.has_dst() { dp as usize } else { src.p as usize };
            if sem == Sem::FromAscii {
                (p != want || k != len).then(|| "a different slice".to_string())
            } else if p != want || k != need {
                Some(format!("result of {k} bytes at offset {} instead of {need} at 0", p.wrapping_sub(want)))
            } else {
                let bad = content(unsafe { std::slice::from_raw_parts(p as *const u8, k) });
                bad.or_else(|| dst.as_ref().and_then(|d| d.beyond(m)))
            }
        }
        Got::Owned(v) => content(&v),
        Got::Unit | Got::Bool(true) => None,
        Got::Len(k) => {
            let want = match spec::expect(sem, &c.src_tail) {
                Exp::Len(t) => t,
                _ => 0,
            } + c.blocks * RAW;
            (k != want).then(|| format!("length {k} instead of {want}"))
        }
        Got::Bad(w) => Some(w.to_string()),
        _ => Some("refused".into()),
    };
    if let Some(w) = ok {
        return Err(fail(w));
    }
    if !inplace {
        if let Some(w) = src.differs(&c.src, &c.src_tail) {
            return Err(fail(format!("the source was modified: {w}")));
        }
    }
    Ok(())
}

/// Memory that can be used without swapping or being killed.
fn available() -> usize {
    let s = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    let f = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)?.trim().split(' ').next()?.parse::<usize>().ok());
    let limit = |p: &str| std::fs::read_to_string(p).ok()?.trim().parse::<usize>().ok();
    let group = ["/sys/fs/cgroup/memory.max", "/sys/fs/cgroup/memory/memory.limit_in_bytes"].iter().find_map(|p| limit(p));
    (f("MemAvailable:").unwrap_or(0) * 1024).min(group.unwrap_or(usize::MAX))
}

/// Up to how much memory of its own a call on `n` units needs.
fn memory(sem: Sem, mode: Mode, n: usize) -> usize {
    let src = match sem {
        Sem::Swap16 => n * 2,
        Sem::Swap32 | Sem::IsUtf32 => n * 4,
        Sem::HexDec | Sem::B64Dec(_) | Sem::B32Dec(_) | Sem::Forg => n * 2,
        _ => n,
    };
    let dst = match sem {
        Sem::HexEncL | Sem::HexEncU | Sem::B32Enc(_) => n * 2,
        Sem::B64Enc(_) => n / 3 * 4,
        Sem::Forg => n / 3 * 4,
        Sem::Swap16 | Sem::Swap32 => src,
        _ => n,
    };
    // two copies: what grows or shrinks is moved
    (if mode.inplace() { src } else { 0 }) + (if mode.has_dst() { dst } else { 0 }) + (if mode.allocates() { 2 * dst + src } else { 0 })
}

pub fn run(prop: &str, sc: Scale, all_modes: bool, seed: u64) -> Outcome {
    let mut st = Stats::default();
    let mut rng = Rng::new(seed);
    let mut skipped = 0;
    let t = std::time::Instant::now();
    let room = available().saturating_sub(6 << 30);
    for (i, sem) in harness::suites::sems(prop).into_iter().enumerate() {
        if matches!(sem, Sem::UuidParse | Sem::UuidParseS | Sem::UuidParseH | Sem::UuidFmtSL | Sem::UuidFmtSU | Sem::UuidFmtHL | Sem::UuidFmtHU) {
            continue;
        }
        // decoding itself belongs to other properties
        if prop == "K01" && matches!(sem, Sem::HexDec | Sem::B64Dec(_) | Sem::B32Dec(_)) {
            continue;
        }
        // a bounded call on every order of magnitude, then more than 2 and more than 4 GiB
        let mut sizes: Vec<usize> = vec![];
        for k in 20..sc.by(22, 24, 28, 32) {
            for _ in 0..sc.by(1, 1, 1, 3) {
                sizes.push((1 << k) + rng.below(1 << k));
            }
        }
        let e = spec::elem(sem);
        if sc >= Scale::Quick {
            sizes.push(((1 << 32) + rng.below(1 << 20)) / if sem == Sem::IsUtf32 || sc > Scale::Quick { 1 } else { e });
        }
        if sc > Scale::Quick || (i as u64 + seed) % 4 == 0 {
            sizes.push((1 << 31) + rng.below(1 << 20));
        }
        let modes: Vec<Mode> = ops::modes(sem).iter().copied().filter(|m| all_modes || !(m.allocates() || m.inplace())).collect();
        for (j, &mode) in modes.iter().enumerate() {
            let moves = mode.allocates() || mode.inplace();
            for &n in &sizes {
                if moves && n > 1 << 26 && n < 1 << 32 {
                    continue;
                }
                // one entry point of those that differ in nothing but the type
                if n >= 1 << 31 && (matches!(mode, Mode::AsStr | Mode::TypeBox | Mode::TypeBoxStr | Mode::TypeString | Mode::AppString | Mode::TypeVec) || sc <= Scale::Quick && j > 0) {
                    continue;
                }
                if memory(sem, mode, n) > room || t.elapsed().as_secs() > 500 {
                    skipped += 1;
                    continue;
                }
                if let Err(f) = one(sem, mode, n, None, &mut rng, &mut st) {
                    return Outcome::from_judge(st, Err(f));
                }
            }
        }
        if st.samples.len() < 4 {
            st.samples.push(format!("{sem:?}: {} sizes up to {}", sizes.len(), sizes.iter().max().unwrap()));
        }
    }
    Outcome::Ok(format!("{},\"left_out_for_memory_or_time\":{skipped}", crate::report::stats(&st)))
}

/// The parallel encoder.
#[cfg(feature = "par")]
pub fn par(sc: Scale, seed: u64) -> Outcome {
    use hex_simd::AsOut;
    let mut st = Stats::default();
    let mut rng = Rng::new(seed);
    let room = available().saturating_sub(6 << 30);
    let mut skipped = 0;
    for i in 0..sc.by(1, 1, 1, 4) {
        let v = (seed as usize + i) % 4;
        let (sem, b) = (Sem::B64Enc(spec::B64S[v]), ops::b64(spec::B64S[v]));
        let threads = [7, 3, 16, 5][(seed as usize + i) / 4 % 4];
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        for n in [(1 << 30) + rng.below(1 << 20), (1 << 32) + rng.below(1 << 20)] {
            if memory(sem, Mode::Slice, n) > room {
                skipped += 1;
                continue;
            }
            let mut f = |s: &[u8], d: &mut [u8]| match pool.install(|| b.par_encode(s, d.as_out()).ok().map(|r| (r.as_ptr() as usize, r.len()))) {
                Some((p, k)) => Got::At(p, k),
                None => Got::Err,
            };
            if let Err(f) = one(sem, Mode::Slice, n, Some(&mut f), &mut rng, &mut st) {
                return Outcome::from_judge(st, Err(f));
            }
        }
        st.samples.push(format!("{sem:?} in {threads} threads, up to 4 GiB and 1 MiB"));
    }
    Outcome::Ok(format!("{},\"left_out_for_memory_or_time\":{skipped}", crate::report::stats(&st)))
}
