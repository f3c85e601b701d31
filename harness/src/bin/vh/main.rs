//! One process of a check: runs one suite on one back end and prints a JSON line with what it observed.
mod guard;
mod heap;
mod huge;
mod m03;
#[cfg(feature = "par")]
mod par;
mod race;
mod report;
#[cfg(target_arch = "x86_64")]
mod step;
mod caller;
mod story;
#[cfg(target_arch = "x86_64")]
mod work;

use harness::gen::Scale;
use harness::ops::{Arena, Exact, Fail, Judge, Mem, Stats};
use harness::rng::Rng;
use report::{finish, Outcome};
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Mutex;

#[global_allocator]
pub static WATCH: heap::Watch = heap::Watch::new();

static PANIC: Mutex<Option<(String, String, String)>> = Mutex::new(None);
static EXPECTED: AtomicBool = AtomicBool::new(false);

pub fn catch(f: &mut dyn FnMut()) -> bool {
    EXPECTED.store(true, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    EXPECTED.store(false, Relaxed);
    r
}

pub struct Args(HashMap<String, String>);
impl Args {
    pub fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map(|v| v.parse().expect("number")).unwrap_or(d)
    }
}

fn scale(s: &str) -> Scale {
    match s {
        "tiny" => Scale::Tiny,
        "small" => Scale::Small,
        "quick" => Scale::Quick,
        "thorough" => Scale::Thorough,
        _ => panic!("scale"),
    }
}

fn set_isa(level: usize) {
    #[cfg(vsimd_verif)]
    vsimd::isa::verif::set_x86_level(level);
    #[cfg(not(vsimd_verif))]
    assert_eq!(level, 4, "built without the hook");
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().expect("command");
    let mut a = HashMap::new();
    while let Some(k) = it.next() {
        let k = k.strip_prefix("--").expect("option").to_string();
        a.insert(k, it.next().expect("value"));
    }
    let a = Args(a);
    guard::install();
    std::panic::set_hook(Box::new(|i| {
        if EXPECTED.load(Relaxed) {
            return;
        }
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((msg, loc, report::current()));
    }));
    set_isa(a.num("isa", 4) as usize);
    let out = catch_unwind(AssertUnwindSafe(|| run(&cmd, &a)));
    match out {
        Ok(o) => finish(o),
        Err(_) => {
            let (msg, loc, cur) = PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap_or_default();
            report::panicked(&msg, &loc, &cur)
        }
    }
}

fn run(cmd: &str, a: &Args) -> Outcome {
    let sc = scale(&a.get("scale", "quick"));
    let seed = a.num("seed", 1);
    match cmd {
        "suite" => {
            let prop = a.get("prop", "");
            let memk = a.get("mem", "arena");
            let mut arena = Arena::new();
            let mut exact = Exact::default();
            let mut guarded;
            let mem: &mut dyn Mem = match &memk[..] {
                "arena" => &mut arena,
                "exact" => &mut exact,
                _ => {
                    guarded = guard::Guarded::new();
                    guarded.readonly = memk == "guard-ro";
                    &mut guarded
                }
            };
            let mut j = Judge::new(mem, seed);
            j.catch = Some(catch);
            j.sparse = a.num("sparse", 0) == 1;
            j.lenient = a.num("lenient", 0) == 1;
            j.rest = matches!(&prop[..], "N03" | "M01") && !j.lenient && memk != "exact";
            let r: Result<(), Fail> = harness::suites::functional(&prop, sc, &mut j);
            Outcome::from_judge(j.st, r)
        }
        #[cfg(feature = "par")]
        "huge" if a.get("prop", "") == "B04" => huge::par(sc, seed),
        "huge" => huge::run(&a.get("prop", "ALL"), sc, a.num("all", 0) == 1, seed),
        "heap" => m03::run(sc, seed),
        "faults" => m03::faults(sc, seed),
        #[cfg(target_arch = "x86_64")]
        "dispatch" => step::run(&a.get("cpu", "native"), a.0.get("fixed").map(|v| v.parse().unwrap()), seed, a.num("reps", 3) as usize),
        #[cfg(target_arch = "x86_64")]
        "work" => work::run(sc, seed, a.num("shard", 0) as usize, a.num("of", 1) as usize),
        #[cfg(target_arch = "x86_64")]
        "time" => work::time(sc, seed),
        "story" => story::run(sc, seed),
        "caller" => caller::run(sc, seed, a.num("watch", 1) == 1),
        "race" => race::run(a.num("count", 100), seed, a.num("parallel", 2) as usize, a.num("steady", 0) as usize),
        "lens" => {
            let mut st = Stats::default();
            let r = harness::lens::run(sc, &mut Rng::new(seed), &mut st, Some(catch));
            Outcome::from_judge(st, r)
        }
        #[cfg(feature = "par")]
        "par" => par::run(sc, seed),
        "trace" => {
            // digests to a file, one line per block; with --block K instead every call of that block
            let detail = a.0.get("block").map(|v| v.parse::<u64>().unwrap());
            let file = std::cell::RefCell::new(std::io::BufWriter::new(std::fs::File::create(a.get("out", "/dev/null")).unwrap()));
            let mut arena = Arena::new();
            let mut out = |b: u64, h: u64| {
                if detail.is_none() {
                    writeln!(file.borrow_mut(), "{b} {h:016x}").unwrap();
                }
            };
            let mut lg = |n: u64, h: u64, sem: harness::spec::Sem, mode: harness::ops::Mode, s: &[u8], m: usize, g: &harness::ops::Got| {
                let g = match g {
                    harness::ops::Got::At(_, n) => format!("slice of {n}"),
                    g => harness::ops::show_got(g, &[]),
                };
                writeln!(file.borrow_mut(), "{n} {h:016x} {sem:?}/{mode:?} {} {} {m} {} {g}", harness::ops::sem_index_fast(sem), mode as u64, report::hex(s)).unwrap();
            };
            let mut t = harness::trace::Tracer {
                mem: &mut arena,
                rng: Rng::new(seed),
                block: 0,
                per_block: 256,
                n: 0,
                h: 0,
                out: &mut out,
                detail,
                log: &mut lg,
                catch: Some(catch),
                inputs: 0,
                seen: Default::default(),
            };
            let _ = t.run(sc, seed, &|_| true);
            let mut st = Stats::default();
            st.calls = t.n;
            st.inputs = t.inputs;
            st.seen.add(t.seen.len());
            let blocks = t.block;
            file.borrow_mut().flush().unwrap();
            Outcome::Ok(format!("{},\"blocks\":{blocks}", report::stats(&st)))
        }
        #[cfg(feature = "vops")]
        "vops" => {
            let mut st = Stats::default();
            let r = harness::vops::run(sc, seed, &a.get("part", "all"), &mut st);
            Outcome::from_judge(st, r)
        }
        "call" => {
            let sem = harness::ops::sem_from_index(a.num("sem", 0) as usize).expect("sem");
            let mode = *harness::ops::modes(sem).iter().find(|m| **m as u64 == a.num("mode", 0)).expect("mode");
            let h = a.get("src", "");
            let src: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[i * 2..i * 2 + 2], 16).unwrap()).collect();
            let mut mem = guard::Guarded::new();
            let mut j = Judge::new(&mut mem, seed);
            j.catch = Some(catch);
            j.rest = a.num("rest", 0) == 1;
            let r = j.replay(sem, mode, &src, a.num("dst", 0) as usize);
            Outcome::from_judge(j.st, r)
        }
        _ => panic!("unknown command {cmd}"),
    }
}
