//! Heap accounting per call, and allocation failure at every allocation of a call.
use crate::heap::{self, ALLOCS, FAIL_AT, FREES, LIVE, LIVE_BYTES, ON};
use crate::report::{esc, hex, Outcome};
use harness::gen::{self, Scale};
use harness::ops::{self, Fail, Mem, Prior, Stats};
use harness::rng::Rng;
use harness::spec::{self, Exp, Sem};
use std::sync::atomic::Ordering::Relaxed;

fn sems() -> Vec<Sem> {
    ops::all_sems().into_iter().filter(|&s| ops::modes(s).iter().any(|m| m.allocates())).collect()
}

pub fn run(sc: Scale, seed: u64) -> Outcome {
    let mut st = Stats::default();
    let mut arena = ops::Arena::new();
    let mut rng = Rng::new(seed);
    let mut max_live = 0;
    let mut calls_allocating = 0u64;
    for sem in sems() {
        let mut g = Rng::new(seed ^ ops::sem_index_fast(sem) << 40);
        let r = gen::inputs(sem, sc, &mut g, &mut |s| {
            st.inputs += 1;
            if !s.is_empty() {
                st.seen.insert(ops::hash(ops::sem_index_fast(sem), s));
            }
            let ok = !matches!(spec::expect(sem, s), Exp::Err);
            for &mode in ops::modes(sem) {
                if !mode.allocates() {
                    continue;
                }
                let prior = match mode {
                    ops::Mode::AppVec | ops::Mode::AppString => Prior {
                        text: vec![b'q'; rng.below(40)],
                        spare: if rng.one_in(2) { 0 } else { rng.below(400) },
                    },
                    _ => Prior::default(),
                };
                let src = arena.src(s, 1, &mut rng);
                ops::note(sem, mode, s, std::ptr::null_mut(), 0);
                let (l0, b0, a0) = (LIVE.load(Relaxed), LIVE_BYTES.load(Relaxed), ALLOCS.load(Relaxed));
                ON.store(true, Relaxed);
                let got = unsafe { ops::run(sem, mode, src, s.len(), std::ptr::null_mut(), 0, &prior) };
                max_live = max_live.max(LIVE_BYTES.load(Relaxed) - b0);
                drop(got);
                ON.store(false, Relaxed);
                let (l1, b1) = (LIVE.load(Relaxed), LIVE_BYTES.load(Relaxed));
                calls_allocating += (ALLOCS.load(Relaxed) != a0) as u64;
                st.calls += 1;
                if ok {
                    st.ok += 1
                } else {
                    st.err += 1
                }
                let what = match heap::offence() {
                    Some(w) => w,
                    None if l1 != l0 => format!("{} block(s) of {} bytes neither returned nor released", l1 - l0, b1 - b0),
                    None => {
                        if st.samples.len() < 4 && s.len() > 20 && rng.one_in(400) {
                            st.samples.push(format!(
                                "{sem:?}/{mode:?} src[{}]={} -> {}: {} allocations, all released",
                                s.len(),
                                hex(&s[..s.len().min(32)]),
                                if ok { "Ok" } else { "Err" },
                                ALLOCS.load(Relaxed) - a0
                            ));
                        }
                        continue;
                    }
                };
                return Err(Fail {
                    what,
                    sem: Some((sem, mode)),
                    src: s.to_vec(),
                    dst_len: 0,
                    expected: "every block released exactly once with its layout".into(),
                    got: if ok { "after Ok".into() } else { "after Err".into() },
                });
            }
            if st.inputs % 2000 == 0 {
                unsafe { crate::WATCH.compact() };
            }
            Ok(())
        });
        if let Err(f) = r {
            return Outcome::Fail(format!("{},{}", crate::report::fail(&f), crate::report::stats(&st)));
        }
    }
    Outcome::Ok(format!(
        "{},\"allocations\":{},\"releases\":{},\"calls_that_allocated\":{calls_allocating},\"peak_bytes_of_one_call\":{max_live}",
        crate::report::stats(&st),
        ALLOCS.load(Relaxed),
        FREES.load(Relaxed)
    ))
}

enum End {
    Exit(i32),
    Signal(i32),
}

/// Forks, runs `f` in the child with stderr captured, and says how the child ended.
fn in_child(f: &mut dyn FnMut()) -> (End, String) {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            for sig in [libc::SIGALRM, libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP] {
                libc::signal(sig, libc::SIG_DFL);
            }
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::dup2(fds[1], 2);
            libc::close(fds[0]);
            libc::alarm(60);
            f();
            libc::_exit(0);
        }
        libc::close(fds[1]);
        // not in a call while waiting
        crate::guard::STAGE.store(1, Relaxed);
        let mut buf = [0u8; 4096];
        let mut text = vec![];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr().cast(), buf.len());
            if n <= 0 {
                break;
            }
            text.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut stt = 0;
        assert_eq!(libc::waitpid(pid, &mut stt, 0), pid);
        crate::guard::STAGE.store(0, Relaxed);
        let end = if libc::WIFSIGNALED(stt) { End::Signal(libc::WTERMSIG(stt)) } else { End::Exit(libc::WEXITSTATUS(stt)) };
        (end, String::from_utf8_lossy(&text).into_owned())
    }
}

pub fn faults(sc: Scale, seed: u64) -> Outcome {
    let mut rng = Rng::new(seed);
    let mut points = 0u64;
    let mut distinct = 0u64;
    let mut aborted = 0u64;
    let mut samples = vec![];
    for sem in sems() {
        let mut inputs: Vec<Vec<u8>> = vec![vec![]];
        for n in sc.by(&[5usize, 40][..], &[5, 40], &[1, 5, 40, 200], &[1, 5, 40, 64, 200, 5000]) {
            let d = rng.bytes(*n);
            match sem {
                Sem::HexEncL | Sem::HexEncU | Sem::B64Enc(_) | Sem::B32Enc(_) => inputs.push(d),
                _ => {
                    let v = gen::code(sem).valid(&d, &mut rng);
                    let mut w = v.clone();
                    let p = w.len() - 1 - rng.below(w.len().min(4));
                    w[p] = b'!';
                    inputs.push(w);
                    if sem == Sem::Forg {
                        let mut u = v.clone();
                        u.insert(v.len() / 2, b' ');
                        inputs.push(u);
                    }
                    inputs.push(v);
                }
            }
        }
        for s in inputs {
            for &mode in ops::modes(sem) {
                if !mode.allocates() {
                    continue;
                }
                for spare in [0usize, 3, 1000] {
                    let app = matches!(mode, ops::Mode::AppVec | ops::Mode::AppString);
                    if !app && spare != 0 {
                        continue;
                    }
                    let prior = if app { Prior { text: b"prior".to_vec(), spare } } else { Prior::default() };
                    let mut src = s.clone();
                    let p = src.as_mut_ptr();
                    // how many allocations this call makes when none fails
                    let a0 = ALLOCS.load(Relaxed);
                    ON.store(true, Relaxed);
                    drop(unsafe { ops::run(sem, mode, p, s.len(), std::ptr::null_mut(), 0, &prior) });
                    ON.store(false, Relaxed);
                    let total = (ALLOCS.load(Relaxed) - a0) as i64;
                    distinct += (total > 0) as u64;
                    for k in 0..total {
                        points += 1;
                        let (end, text) = in_child(&mut || unsafe {
                            FAIL_AT.store(ALLOCS.load(Relaxed) as i64 + k, Relaxed);
                            ON.store(true, Relaxed);
                            drop(ops::run(sem, mode, p, s.len(), std::ptr::null_mut(), 0, &prior));
                            ON.store(false, Relaxed);
                        });
                        let std_path = text.contains("memory allocation of");
                        let bad = match end {
                            End::Signal(libc::SIGABRT) if std_path => {
                                aborted += 1;
                                None
                            }
                            End::Signal(libc::SIGALRM) => return Outcome::Unclear("child stuck".into()),
                            End::Signal(s) => Some(format!("ended by signal {s}")),
                            End::Exit(c) => Some(format!("returned as if nothing had failed (exit {c})")),
                        };
                        if let Some(b) = bad {
                            let f = Fail {
                                what: format!("allocation {k} of {total} failed: {b}"),
                                sem: Some((sem, mode)),
                                src: s.clone(),
                                dst_len: 0,
                                expected: "the allocation-error path (message and SIGABRT)".into(),
                                got: text,
                            };
                            return Outcome::Fail(crate::report::fail(&f));
                        }
                        if samples.len() < 3 && s.len() > 20 && points % 97 == 0 {
                            samples.push(format!("{sem:?}/{mode:?} src[{}]={} allocation {k} of {total} refused -> SIGABRT: {}", s.len(), hex(&s[..s.len().min(24)]), text.trim()));
                        }
                    }
                }
            }
        }
    }
    Outcome::Ok(format!(
        "\"calls\":{points},\"inputs\":{points},\"distinct\":{distinct},\"ok\":{aborted},\"err\":0,\"short_dst\":0,\"samples\":[{}]",
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
    ))
}
