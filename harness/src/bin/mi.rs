//! The program run inside Miri (any target) and under ThreadSanitizer: no libc, exact-size heap buffers.
use harness::gen::Scale;
use harness::ops::{self, Exact, Judge, Stats};
use harness::rng::Rng;
use harness::spec::Sem;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

static EXPECTED: AtomicBool = AtomicBool::new(false);

fn catch(f: &mut dyn FnMut()) -> bool {
    EXPECTED.store(true, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    EXPECTED.store(false, Relaxed);
    r
}

fn esc(s: &str) -> String {
    format!("{s:?}").replace("\\'", "'").replace("\\u{", "u{")
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string());
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let sc = match &get("--scale", "tiny")[..] {
        "tiny" => Scale::Tiny,
        "small" => Scale::Small,
        "quick" => Scale::Quick,
        _ => Scale::Thorough,
    };
    std::panic::set_hook(Box::new(|i| {
        if !EXPECTED.load(Relaxed) && i.payload().downcast_ref::<harness::caller::Mine>().is_none() {
            let own = i.location().map_or(true, |l| l.file().starts_with("src/") || l.file().contains("/verif/harness/"));
            if own {
                println!("{{\"status\":\"error\",\"why\":{}}}", esc(&i.to_string()));
            } else {
                println!(
                    "{{\"status\":\"panic\",\"what\":{},\"op\":\"{:?}\",\"src_len\":{}}}",
                    esc(&i.to_string()),
                    ops::sem_from_index(ops::CUR_SEM.load(Relaxed)),
                    ops::CUR_LEN.load(Relaxed)
                );
            }
        }
    }));
    let mut st = Stats::default();
    let mut extra = String::new();
    let r = match &a[0][..] {
        "suite" => {
            let prop = get("--prop", "ALL");
            // shard i of n over the operations, and operations left out
            let (i, n): (usize, usize) = (get("--shard", "0").parse().unwrap(), get("--of", "1").parse().unwrap());
            let skip = get("--skip", "");
            let skipped = |s: Sem| skip.split(',').any(|k| !k.is_empty() && format!("{s:?}").starts_with(k));
            let mut mem = Exact::default();
            let mut j = Judge::new(&mut mem, seed);
            j.catch = Some(catch);
            j.lenient = get("--lenient", "0") == "1";
            j.sparse = get("--sparse", "0") == "1";
            let mut r = Ok(());
            for (k, sem) in harness::suites::sems(&prop).into_iter().filter(|s| !skipped(*s)).enumerate() {
                if k % n != i {
                    continue;
                }
                let mut g = Rng::new(seed ^ ops::sem_index_fast(sem) << 32);
                r = harness::gen::inputs(sem, sc, &mut g, &mut |s| j.input(sem, s));
                if r.is_err() {
                    break;
                }
            }
            if i == 0 && r.is_ok() && get("--display", "1") == "1" && prop == "ALL" {
                r = harness::suites::uuid_display_n(&mut j, sc.by(1, 40, 600, 6000));
            }
            st = j.st;
            r
        }
        "lens" => harness::lens::run(sc, &mut Rng::new(seed), &mut st, Some(catch)),
        #[cfg(feature = "par")]
        "par" => par(seed, &mut st),
        "caller" => {
            let mut seen = harness::caller::Seen::default();
            let r = harness::caller::run(sc, seed, &harness::caller::NO_ACCOUNT, &mut st, &mut seen);
            extra = format!(",{}", seen.json());
            r.map_err(|w| ops::Fail { what: format!("{}: {}", w.op, w.what), sem: None, src: w.src, dst_len: 0, expected: String::new(), got: String::new() })
        }
        "none" => {
            st.calls = 1;
            Ok(())
        }
        "race" => {
            #[cfg(vsimd_verif)]
            vsimd::isa::verif::set_x86_level(get("--isa", "4").parse().unwrap());
            harness::race::race(seed, get("--threads", "3").parse().unwrap(), get("--rounds", "2").parse().unwrap(), &mut st).map(|s| {
                st.seen.add(1);
                println!("{{\"schedule\":\"{:016x}\",\"overlapping\":{},\"contended_firsts\":{}}}", s.schedule, s.overlapping, s.contended_firsts);
            })
        }
        "steady" => {
            #[cfg(vsimd_verif)]
            vsimd::isa::verif::set_x86_level(get("--isa", "4").parse().unwrap());
            harness::race::steady(seed, get("--threads", "3").parse().unwrap(), get("--calls", "8").parse().unwrap(), &mut st).map(|o| {
                st.seen.add(1);
                println!("{{\"overlapping\":{o}}}");
            })
        }
        x => panic!("unknown command {x}"),
    };
    match r {
        Ok(()) => {
            println!(
                "{{\"status\":\"ok\",\"calls\":{},\"inputs\":{},\"distinct\":{},\"ok\":{},\"err\":{},\"mismatch\":{},\"short_dst\":{},\"samples\":[{}]{extra}}}",
                st.calls,
                st.inputs,
                st.seen.len(),
                st.ok,
                st.err,
                st.mismatch,
                st.short_dst,
                st.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
            );
        }
        Err(f) => {
            let src: String = f.src.iter().map(|b| format!("{b:02x}")).collect();
            println!(
                "{{\"status\":\"fail\",\"what\":{},\"op\":{},\"src\":\"{src}\",\"dst_len\":{},\"expected\":{},\"got\":{}}}",
                esc(&f.what),
                esc(&format!("{:?}", f.sem)),
                f.dst_len,
                esc(&f.expected),
                esc(&f.got)
            );
            std::process::exit(1)
        }
    }
}

/// The parallel base64 encoder, on inputs that are just large enough to be split.
#[cfg(feature = "par")]
fn par(seed: u64, st: &mut Stats) -> Result<(), ops::Fail> {
    use harness::spec::{b64_encode, B64S};
    use hex_simd::AsOut;
    let mut rng = Rng::new(seed);
    let p = 2 + (seed % 3) as usize;
    let pool = rayon::ThreadPoolBuilder::new().num_threads(p).build().unwrap();
    for k in 0..2 {
        let n = p * 4096 + rng.below(3 * p + 3);
        let v = B64S[(seed as usize / 3 + k * 3) % 4];
        // few different bytes: the interpreter spends its time on the encoder
        let src: Vec<u8> = (0..n).map(|i| (i * 7 + (i >> 8) + seed as usize) as u8).collect();
        let want = b64_encode(&src, v);
        let m = want.len() + rng.below(3);
        let mut dst: Vec<u8> = Vec::with_capacity(m);
        let d = &mut dst.spare_capacity_mut()[..m];
        let at = d.as_ptr() as usize;
        let r = pool.install(|| ops::b64(v).par_encode(&src, d.as_out()).map(|r| (r.as_ptr() as usize == at, &r[..] == &want[..])));
        st.calls += 1;
        st.inputs += 1;
        st.ok += 1;
        st.seen.insert(ops::hash(n as u64, &src[..8]));
        if !matches!(r, Ok((true, true))) {
            return Err(ops::Fail {
                what: format!("par_encode of {n} bytes in {p} threads with {v:?}"),
                sem: Some((Sem::B64Enc(v), ops::Mode::Slice)),
                src: src[..64].to_vec(),
                dst_len: m,
                expected: "the sequential encoding, at the destination".into(),
                got: format!("{:?} (at the destination, equal)", r.map_err(|_| ())),
            });
        }
    }
    Ok(())
}
