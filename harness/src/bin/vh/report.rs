//! The JSON line every process prints last.
use harness::ops::{self, Fail, Stats};
use std::sync::atomic::Ordering::Relaxed;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{c:02x}")).collect()
}

pub enum Outcome {
    /// extra JSON members, without braces
    Ok(String),
    Fail(String),
    /// ran, but cannot judge
    Unclear(String),
}

pub fn stats(st: &Stats) -> String {
    format!(
        "\"calls\":{},\"inputs\":{},\"distinct\":{},\"ok\":{},\"err\":{},\"short_dst\":{},\"samples\":[{}]",
        st.calls,
        st.inputs,
        st.seen.len(),
        st.ok,
        st.err,
        st.short_dst,
        st.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
    )
}
pub fn fail(f: &Fail) -> String {
    format!(
        "\"what\":{},\"op\":{},\"sem\":{},\"mode\":{},\"src_len\":{},\"src\":{},\"dst_len\":{},\"expected\":{},\"got\":{}",
        esc(&f.what),
        esc(&match f.sem {
            Some((s, m)) => format!("{s:?}/{m:?}"),
            None => String::new(),
        }),
        f.sem.map_or(0, |(s, _)| ops::sem_index_fast(s)),
        f.sem.map_or(0, |(_, m)| m as u64),
        f.src.len(),
        esc(&hex(&f.src[..f.src.len().min(1 << 16)])),
        f.dst_len,
        esc(&f.expected),
        esc(&f.got)
    )
}

impl Outcome {
    pub fn from_judge(st: Stats, r: Result<(), Fail>) -> Outcome {
        match r {
            Ok(()) => Outcome::Ok(stats(&st)),
            Err(f) => Outcome::Fail(format!("{},{}", fail(&f), stats(&st))),
        }
    }
}

pub fn finish(o: Outcome) -> ! {
    let (s, x, code) = match o {
        Outcome::Ok(x) => ("ok", x, 0),
        Outcome::Fail(x) => ("fail", x, 1),
        Outcome::Unclear(x) => ("unclear", format!("\"why\":{}", esc(&x)), 3),
    };
    println!("\n{{\"status\":\"{s}\",{x}}}");
    std::process::exit(code)
}

/// What the last noted call was, as JSON members.
pub fn current() -> String {
    let sem = ops::CUR_SEM.load(Relaxed);
    let n = ops::CUR_LEN.load(Relaxed);
    let p = ops::CUR_SRC.load(Relaxed) as *const u8;
    let src = if p.is_null() || guard_stage() { String::new() } else { hex(unsafe { std::slice::from_raw_parts(p, n.min(1 << 16)) }) };
    let w = ops::CUR_WHAT.load(Relaxed);
    format!(
        "\"op\":{},\"activity\":{},\"sem\":{},\"mode\":{},\"src_len\":{},\"src\":{},\"dst_len\":{}",
        esc(&ops::sem_from_index(sem).map(|s| format!("{s:?}")).unwrap_or_default()),
        esc(if w.is_null() { "" } else { unsafe { *w } }),
        sem,
        ops::CUR_MODE.load(Relaxed),
        n,
        esc(&src),
        ops::CUR_DLEN.load(Relaxed)
    )
}
fn guard_stage() -> bool {
    crate::guard::STAGE.load(Relaxed) != 0
}

pub fn panicked(msg: &str, loc: &str, cur: &str) -> ! {
    // a panic raised by the harness's own code says nothing about the library
    let own = loc.starts_with("src/") || loc.contains("/verif/harness/");
    if own {
        println!("\n{{\"status\":\"error\",\"why\":{}}}", esc(&format!("harness panic: {msg} at {loc}")));
        std::process::exit(70);
    }
    println!("\n{{\"status\":\"panic\",\"what\":{},\"at\":{},{cur}}}", esc(&format!("panic: {msg}")), esc(loc));
    std::process::exit(1)
}
