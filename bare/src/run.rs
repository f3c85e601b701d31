//! What the programs without a standard library have in common: options as text, a verdict as one JSON line.
use alloc::format;
use alloc::string::{String, ToString};
use harness::gen::Scale;
use harness::ops::{self, Arena, Exact, Judge, Stats};
use harness::rng::Rng;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// `suite --prop ALL --scale small --sparse 0 --seed 1` or `lens ...`
pub fn run(line: &str) -> String {
    let get = |k: &str, d: &str| -> String {
        let mut it = line.split_whitespace();
        while let Some(x) = it.next() {
            if x == k {
                return it.next().unwrap_or("").to_string();
            }
        }
        d.to_string()
    };
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let sc = match &get("--scale", "tiny")[..] {
        "tiny" => Scale::Tiny,
        "small" => Scale::Small,
        "quick" => Scale::Quick,
        _ => Scale::Thorough,
    };
    let mut st = Stats::default();
    let r = match line.split_whitespace().next() {
        Some("suite") => {
            let (mut a, mut b);
            let mem: &mut dyn ops::Mem = if get("--mem", "arena") == "arena" {
                a = Arena::new();
                &mut a
            } else {
                b = Exact::default();
                &mut b
            };
            let mut j = Judge::new(mem, seed);
            j.sparse = get("--sparse", "0") == "1";
            let r = harness::suites::functional(&get("--prop", "ALL"), sc, &mut j);
            st = j.st;
            r
        }
        #[cfg(all(target_arch = "x86", target_os = "linux"))]
        Some("lens") if get("--catch", "0") == "1" => harness::lens::run(sc, &mut Rng::new(seed), &mut st, Some(crate::imp::catch)),
        #[cfg(all(target_arch = "x86", target_os = "linux"))]
        Some("big") => match crate::big::run(&get("--prop", "ALL"), &mut Rng::new(seed), &mut st) {
            Ok(r) => r,
            Err(why) => return format!("{{\"status\":\"error\",\"why\":\"{why}\"}}"),
        },
        Some("lens") => harness::lens::run(sc, &mut Rng::new(seed), &mut st, None),
        #[cfg(feature = "vops")]
        Some("vops") => harness::vops::run(sc, seed, &get("--part", "all"), &mut st),
        _ => return "{\"status\":\"error\",\"why\":\"unknown command\"}".to_string(),
    };
    match r {
        Ok(()) => format!(
            "{{\"status\":\"ok\",\"calls\":{},\"inputs\":{},\"distinct\":{},\"ok\":{},\"err\":{},\"short_dst\":{},\"pointer_bits\":{},\"samples\":[{}]}}",
            st.calls,
            st.inputs,
            st.seen.len(),
            st.ok,
            st.err,
            st.short_dst,
            usize::BITS,
            st.samples.iter().map(|s| esc(s)).collect::<alloc::vec::Vec<_>>().join(",")
        ),
        Err(f) => {
            let mut src = String::new();
            for b in &f.src {
                src += &format!("{b:02x}");
            }
            format!(
                "{{\"status\":\"fail\",\"what\":{},\"op\":{},\"src\":\"{src}\",\"dst_len\":{},\"expected\":{},\"got\":{}}}",
                esc(&f.what),
                esc(&format!("{:?}", f.sem)),
                f.dst_len,
                esc(&f.expected),
                esc(&f.got)
            )
        }
    }
}

pub fn panicked(i: &core::panic::PanicInfo) -> String {
    let own = i.location().map_or(true, |l| l.file().starts_with("src/") || l.file().contains("/verif/"));
    format!(
        "{{\"status\":\"{}\",\"what\":{},\"why\":{},\"op\":\"{:?}\",\"src_len\":{}}}",
        if own { "error" } else { "panic" },
        esc(&i.to_string()),
        esc(&i.to_string()),
        ops::sem_from_index(ops::CUR_SEM.load(core::sync::atomic::Ordering::Relaxed)),
        ops::CUR_LEN.load(core::sync::atomic::Ordering::Relaxed)
    )
}

/// A size-class allocator over one growing region: fast enough, and it reuses memory.
pub struct Pool;
const CLASSES: usize = 31;
static mut FREE: [*mut u8; CLASSES] = [core::ptr::null_mut(); CLASSES];

unsafe impl core::alloc::GlobalAlloc for Pool {
    unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
        let c = class(l);
        if c >= CLASSES {
            return core::ptr::null_mut();
        }
        let p = FREE[c];
        if !p.is_null() {
            FREE[c] = p.cast::<*mut u8>().read();
            return p;
        }
        crate::more(1 << c)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: core::alloc::Layout) {
        let c = class(l);
        p.cast::<*mut u8>().write(FREE[c]);
        FREE[c] = p;
    }
}
fn class(l: core::alloc::Layout) -> usize {
    let n = l.size().max(l.align()).max(16);
    (usize::BITS - (n - 1).leading_zeros()) as usize
}
