//! Histories that need an operating system: threads that come and go, forks, panics and formatting inside formatting.
use crate::report::{self, Outcome};
use harness::gen::Scale;
use harness::ops::{Fail, Stats};
use harness::rng::Rng;
use harness::spec;
use harness::story::{self, Teller};
use std::fmt::{self, Write};

const ROOM: usize = 1 << 18;

/// Some calls in a thread of their own, which ends.
fn in_thread(seed: u64, st: &mut Stats) -> Result<(), Fail> {
    let (r, s) = std::thread::spawn(move || {
        let mut st = Stats::default();
        let mut t = Teller::new(1 << 12);
        let r = story::mixed(&mut t, 40, 1 << 12, &mut Rng::new(seed), &mut st, &mut |_, _| Ok(()));
        (r, st)
    })
    .join()
    .unwrap_or_else(|_| std::process::exit(1)); // the panic hook has printed the verdict
    st.calls += s.calls;
    st.ok += s.ok;
    st.err += s.err;
    r
}

/// Some calls in a forked child.
fn in_child(seed: u64) -> Result<(), Fail> {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::alarm(300);
            let mut st = Stats::default();
            let mut t = Teller::new(1 << 12);
            let r = story::mixed(&mut t, 200, 1 << 12, &mut Rng::new(seed), &mut st, &mut |_, _| Ok(()));
            if let Err(f) = r {
                println!("\n{{\"status\":\"fail\",{}}}", report::fail(&f));
                libc::_exit(1);
            }
            libc::_exit(0);
        }
        crate::guard::STAGE.store(1, std::sync::atomic::Ordering::Relaxed);
        let mut s = 0;
        assert_eq!(libc::waitpid(pid, &mut s, 0), pid);
        crate::guard::STAGE.store(0, std::sync::atomic::Ordering::Relaxed);
        if libc::WIFEXITED(s) && libc::WEXITSTATUS(s) == 0 {
            return Ok(());
        }
        if libc::WIFEXITED(s) && libc::WEXITSTATUS(s) == 1 {
            // it has printed its verdict
            std::process::exit(1);
        }
        Err(Fail {
            what: format!("the calls of a forked child end with wait status {s:#x}"),
            sem: None,
            src: vec![],
            dst_len: 0,
            expected: "exit 0".into(),
            got: String::new(),
        })
    }
}

/// A writer that uses the library itself while it receives text from it.
struct Nested {
    text: String,
    rng: Rng,
    wrong: Option<String>,
    depth: usize,
    calls: u64,
}
impl fmt::Write for Nested {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let before = s.to_string();
        if self.depth < 3 {
            self.depth += 1;
            let d = self.rng.bytes(16);
            let (simple, upper) = (self.rng.one_in(2), self.rng.one_in(2));
            let mut inner = Nested { text: String::new(), rng: Rng::new(self.rng.u64()), wrong: None, depth: self.depth, calls: 0 };
            show(&d, simple, upper, &mut inner);
            let want = spec::uuid_fmt(&d, upper, !simple);
            if inner.text.as_bytes() != want {
                self.wrong = Some(format!("{:?} printed as {:?}", String::from_utf8_lossy(&want), inner.text));
            }
            let b = hex_simd::encode_to_string(&d, hex_simd::AsciiCase::Lower);
            if b.as_bytes() != spec::hex_encode(&d, false) {
                self.wrong = Some(format!("hex of {d:x?} is {b}"));
            }
            self.calls += inner.calls + 2;
            // many at one level
            if self.depth == 1 && self.rng.one_in(8) {
                let n = self.rng.range(10, 500);
                for _ in 0..n {
                    let d = self.rng.bytes(16);
                    let mut w = Nested { text: String::new(), rng: Rng::new(0), wrong: None, depth: 9, calls: 0 };
                    show(&d, simple, upper, &mut w);
                    if w.text.as_bytes() != spec::uuid_fmt(&d, upper, !simple) {
                        self.wrong = Some(format!("uuid {d:x?} printed as {:?}", w.text));
                    }
                }
                self.calls += n as u64;
            }
            self.wrong = self.wrong.take().or(inner.wrong);
            self.depth -= 1;
        }
        if s != before {
            self.wrong = Some(format!("the text handed to a writer changed from {before:?} to {s:?} while the writer formatted something else"));
        }
        self.text.push_str(s);
        Ok(())
    }
}
fn show(d: &[u8], simple: bool, upper: bool, w: &mut Nested) {
    use uuid_simd::UuidExt as E;
    let u = uuid::Uuid::from_slice(d).unwrap();
    let (s, h) = (E::format_simple(&u), E::format_hyphenated(&u));
    match (simple, upper) {
        (true, false) => write!(w, "{s}").unwrap(),
        (true, true) => write!(w, "{s:X}").unwrap(),
        (false, false) => write!(w, "{h:x}").unwrap(),
        (false, true) => write!(w, "{h:X}").unwrap(),
    }
}
fn nested(rng: &mut Rng, st: &mut Stats) -> Result<(), Fail> {
    let d = rng.bytes(16);
    let (simple, upper) = (rng.one_in(2), rng.one_in(2));
    let mut w = Nested { text: String::new(), rng: Rng::new(rng.u64()), wrong: None, depth: 0, calls: 0 };
    show(&d, simple, upper, &mut w);
    st.calls += w.calls + 1;
    st.ok += w.calls + 1;
    let want = spec::uuid_fmt(&d, upper, !simple);
    let wrong = w.wrong.take().or_else(|| (w.text.as_bytes() != want).then(|| format!("{:?} printed as {:?}", String::from_utf8_lossy(&want), w.text)));
    match wrong {
        None => Ok(()),
        Some(got) => Err(Fail {
            what: "formatting from within a writer that is being formatted to".into(),
            sem: None,
            src: d,
            dst_len: 0,
            expected: "the same texts as without nesting".into(),
            got,
        }),
    }
}

/// A swap into a destination that is too short.
fn panicking(rng: &mut Rng, st: &mut Stats) {
    use hex_simd::AsOut;
    let s = vec![1u32; rng.range(1, 60)];
    let mut d = vec![0u32; rng.below(s.len())];
    let p = if rng.one_in(2) {
        crate::catch(&mut || {
            let _ = unicode_simd::utf32_swap_endianness(&s, d.as_mut_slice().as_out());
        })
    } else {
        let (s, mut d) = (vec![1u16; s.len()], vec![0u16; d.len()]);
        crate::catch(&mut || {
            let _ = unicode_simd::utf16_swap_endianness(&s, d.as_mut_slice().as_out());
        })
    };
    st.calls += 1;
    st.err += 1;
    std::hint::black_box(p);
}

pub fn run(sc: Scale, seed: u64) -> Outcome {
    let mut st = Stats::default();
    let mut rng = Rng::new(seed);
    let mut t = Teller::new(ROOM);
    let mut marks = (0u64, 0u64, 0u64, 0u64);
    let mut work = || -> Result<(), Fail> {
        let mut all = story::pairs();
        rng.shuffle(&mut all);
        let mut extra = Stats::default();
        let mut mix = |t: &mut Teller, rng: &mut Rng, st: &mut Stats, n: usize| {
            story::mixed(t, n, ROOM, rng, st, &mut |rng, _| {
                match rng.below(600) {
                    0 => {
                        marks.0 += 1;
                        in_thread(rng.u64(), &mut extra)?;
                    }
                    1 if rng.one_in(4) => {
                        marks.1 += 1;
                        in_child(rng.u64())?;
                    }
                    2..=8 => {
                        marks.2 += 1;
                        nested(rng, &mut extra)?;
                    }
                    9..=11 => {
                        marks.3 += 1;
                        panicking(rng, &mut extra);
                    }
                    _ => {}
                }
                Ok(())
            })
        };
        mix(&mut t, &mut rng, &mut st, sc.by(500, 3000, 40_000, 200_000))?;
        for (k, (sem, mode)) in all.into_iter().enumerate() {
            let first = !mode.allocates() && harness::ops::modes(sem)[0] == mode;
            let n = match (sc, first) {
                (Scale::Thorough, true) => 3 << 20,
                (Scale::Thorough, _) => 1 << 19,
                (Scale::Quick, true) => 1_100_000,
                (Scale::Quick, _) => 140_000,
                _ => 2_000,
            };
            story::rolling(&mut t, sem, mode, n, &mut rng, &mut st)?;
            if k % 8 == 0 {
                mix(&mut t, &mut rng, &mut st, sc.by(20, 50, 600, 4000))?;
            }
        }
        st.calls += extra.calls;
        st.ok += extra.ok;
        st.err += extra.err;
        Ok(())
    };
    let r = work();
    if let Err(f) = r {
        // one call alone shows nothing: the check is rerun instead
        let f = Fail { what: format!("{} {}", f.what, f.sem.map(|(s, m)| format!("{s:?}/{m:?}")).unwrap_or_default()), sem: None, ..f };
        return Outcome::Fail(format!("{},{}", report::fail(&f), report::stats(&st)));
    }
    st.samples.push(format!("one history of {} calls: {} threads that came and went, {} forks, {} nested formattings, {} panics in between", t.n, marks.0, marks.1, marks.2, marks.3));
    Outcome::Ok(format!("{},\"history\":{},\"pairs\":{},\"threads\":{},\"forks\":{},\"nested\":{},\"panics\":{}", report::stats(&st), t.n, t.pairs.len(), marks.0, marks.1, marks.2, marks.3))
}
