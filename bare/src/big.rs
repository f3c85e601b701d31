//! Inputs near the limit of a 32-bit address space, where `len * 8`, `len * 5`, `len * 4` and `len * 3` no longer fit.
use crate::imp::{periodic, plain, unmap};
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec::Vec;
use harness::gen::R;
use harness::ops::{self, Fail, Got, Mode, Prior, Stats};
use harness::periodic::{bad_byte, case, RAW};
use harness::rng::Rng;
use harness::spec::{self, Exp, Sem};

pub fn run(prop: &str, rng: &mut Rng, st: &mut Stats) -> Result<R, &'static str> {
    for sem in harness::suites::sems(prop) {
        use Sem::*;
        // bytes of data (or elements): sources up to 1.9 GiB, less where source and result must both fit
        let quarter = 1usize << 28;
        let n = match sem {
            UuidParse | UuidParseS | UuidParseH | UuidFmtSL | UuidFmtSU | UuidFmtHL | UuidFmtHU => continue,
            HexEncL | HexEncU | B64Enc(_) | B32Enc(_) => 3 * quarter,
            HexDec | HexChk => 3 * quarter + quarter / 2,
            B64Dec(_) | B32Dec(_) | B64Chk(_) | B32Chk(_) | B64Len(_) | B32Len(_) => 4 * quarter + quarter / 2,
            Forg => 4 * quarter,
            IsAscii | FromAscii => 7 * quarter,
            IsUtf32 => 7 * quarter / 4,
            Swap16 => 3 * quarter,
            Swap32 => 3 * quarter / 2,
        };
        let n = n + rng.below(1 << 20);
        if let Err(f) = one(sem, n, rng, st)? {
            return Ok(Err(f));
        }
        if st.samples.len() < 8 {
            st.samples.push(format!("{sem:?} of {n}"));
        }
    }
    Ok(Ok(()))
}

fn one(sem: Sem, n: usize, rng: &mut Rng, st: &mut Stats) -> Result<R, &'static str> {
    let mode = ops::modes(sem)[0];
    if mode.allocates() || mode.inplace() {
        return Err("first entry point of an operation needs memory");
    }
    let c = case(sem, n, rng);
    let (len, need) = (c.src_len(), c.dst_len());
    let m = if sem == Sem::Forg { len } else { need };
    let (sp, smap) = unsafe { periodic(&c.src, c.blocks, &c.src_tail) }.ok_or("cannot map the source")?;
    let mut dmap = (core::ptr::null_mut(), 0);
    let mut dp = core::ptr::null_mut();
    if mode.has_dst() {
        dmap = unsafe { plain(m) }.ok_or("cannot map the destination")?;
        // ends right before the unmapped page
        dp = unsafe { dmap.0.add((dmap.1 - 4096 - m) / 8 * 8) };
    }
    let fail = |what: String| Fail {
        what: format!("{what}; a source of {len} bytes that repeats {} bytes {} times, and {} more", c.src.len(), c.blocks, c.src_tail.len()),
        sem: Some((sem, mode)),
        src: c.src[..64].to_vec(),
        dst_len: m,
        expected: "as for short inputs".to_string(),
        got: String::new(),
    };
    let call = |m: usize| {
        ops::note(sem, mode, &c.src[..64], dp, m);
        unsafe { ops::run(sem, mode, sp, len, dp, m, &Prior::default()) }
    };
    st.inputs += 1;
    st.seen.insert(ops::hash(ops::sem_index_fast(sem), &n.to_le_bytes()));
    if mode.has_dst() && mode != Mode::Raw && !matches!(sem, Sem::Swap16 | Sem::Swap32) {
        st.calls += 1;
        st.short_dst += 1;
        if !matches!(call(m - 1), Got::Err) {
            return Ok(Err(fail("a destination that is one byte short is accepted".to_string())));
        }
    }
    if let Some(x) = bad_byte(sem) {
        let e = spec::elem(sem);
        let k = rng.below(c.src_tail.len().saturating_sub(8).max(1)) / e * e + e - 1;
        let at = unsafe { sp.add(c.blocks * c.src.len() + k) };
        let old = unsafe { at.replace(x) };
        st.calls += 1;
        st.err += 1;
        if !matches!(call(m), Got::Err | Got::Bool(false)) {
            return Ok(Err(fail(format!("a bad byte at {} is not noticed", at as usize - sp as usize))));
        }
        unsafe { at.write(old) };
    }
    st.calls += 1;
    st.ok += 1;
    let wrong = match call(m) {
        Got::At(p, k) => {
            let want = if mode.has_dst() { dp as usize } else { sp as usize };
            let need = if mode.has_dst() { need } else { len };
            if p != want || k != need {
                Some(format!("result of {k} bytes at offset {} instead of {need} at 0", p.wrapping_sub(want)))
            } else if !mode.has_dst() {
                None
            } else {
                let r = unsafe { core::slice::from_raw_parts(p as *const u8, k) };
                let bad = (0..c.blocks).find(|b| r[b * c.dst.len()..][..c.dst.len()] != c.dst[..]);
                let end = c.blocks * c.dst.len();
                bad.map(|b| format!("wrong bytes after {}", b * c.dst.len()))
                    .or_else(|| (r[end..] != c.dst_tail[..]).then(|| "wrong bytes at the end".to_string()))
            }
        }
        Got::Unit | Got::Bool(true) => None,
        Got::Len(k) => {
            let want = c.blocks * RAW
                + match spec::expect(sem, &c.src_tail) {
                    Exp::Len(t) => t,
                    _ => 0,
                };
            (k != want).then(|| format!("length {k} instead of {want}"))
        }
        _ => Some("refused".to_string()),
    };
    unsafe {
        unmap(sp, smap);
        if !dmap.0.is_null() {
            unmap(dmap.0, dmap.1);
        }
    }
    let _: Vec<u8> = c.src;
    Ok(match wrong {
        Some(w) => Err(fail(w)),
        None => Ok(()),
    })
}
