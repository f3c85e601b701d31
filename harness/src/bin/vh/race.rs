//! Thousands of fresh processes (forks of one that never called the library), each raced by its first calls.
use crate::report::{self, Outcome};
use harness::ops::Stats;
use harness::rng::Rng;
use std::collections::HashSet;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

struct Child {
    pid: i32,
    out: std::fs::File,
    seed: u64,
    at: Instant,
}

fn cpu(pid: i32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

fn spawn(seed: u64, threads: usize, rounds: usize, steady: usize) -> Child {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::dup2(fds[1], 1);
            libc::close(fds[0]);
            libc::close(fds[1]);
            std::panic::set_hook(Box::new(|i| {
                let own = i.location().map_or(true, |l| l.file().starts_with("src/") || l.file().contains("/verif/harness/"));
                println!("{}", if own { format!("\"status\":\"error\" {i}") } else { format!("BAD \"what\":{}", report::esc(&format!("panic in concurrent calls: {i}"))) });
                libc::_exit(1)
            }));
            let mut st = Stats::default();
            let r = if steady > 0 {
                harness::race::steady(seed, threads, steady, &mut st).map(|o| harness::race::Seen { schedule: seed, overlapping: o as usize, contended_firsts: 0 })
            } else {
                harness::race::race(seed, threads, rounds, &mut st)
            };
            match r {
                Ok(s) => {
                    println!("OK {} {} {} {} {}", st.calls, st.inputs, s.schedule, s.overlapping, s.contended_firsts);
                    libc::_exit(0)
                }
                Err(f) => {
                    println!("BAD {}", report::fail(&f));
                    libc::_exit(1)
                }
            }
        }
        libc::close(fds[1]);
        Child { pid, out: std::fs::File::from_raw_fd(fds[0]), seed, at: Instant::now() }
    }
}

/// `steady`: calls per thread, for sustained concurrent use instead of racing first calls
pub fn run(count: u64, seed: u64, parallel: usize, steady: usize) -> Outcome {
    let mut st = Stats::default();
    let mut rng = Rng::new(seed);
    let mut live: Vec<Child> = vec![];
    let mut schedules = HashSet::new();
    let (mut started, mut overlapping, mut contended, mut finished) = (0u64, 0u64, 0u64, 0u64);
    while started < count || !live.is_empty() {
        while live.len() < parallel && started < count {
            let threads = *rng.pick(&[2, 2, 3, 4, 8]);
            let rounds = rng.range(1, 6);
            live.push(spawn(seed.wrapping_mul(0x9e37_79b9).wrapping_add(started), threads, rounds, steady));
            started += 1;
        }
        let mut k = 0;
        let mut progress = false;
        while k < live.len() {
            let mut status = 0;
            let r = unsafe { libc::waitpid(live[k].pid, &mut status, libc::WNOHANG) };
            if r == 0 {
                // a child takes milliseconds (seconds with many calls); blocked for a minute, without using the CPU, it will never end
                if live[k].at.elapsed() > Duration::from_secs(60) {
                    let c0 = cpu(live[k].pid);
                    std::thread::sleep(Duration::from_secs(5));
                    let c1 = cpu(live[k].pid);
                    let seed = live[k].seed;
                    if unsafe { libc::waitpid(live[k].pid, &mut status, libc::WNOHANG) } == 0 && (c1 == c0 || c1 > 20_000) {
                        for c in &live {
                            unsafe { libc::kill(c.pid, libc::SIGKILL) };
                        }
                        return Outcome::Fail(format!(
                            "\"what\":\"concurrent calls never return (process {} of {}, {} others finished)\",\"race_seed\":{},{}",
                            seed & 0xffff, count, finished, seed, report::stats(&st)
                        ));
                    }
                }
                k += 1;
                continue;
            }
            progress = true;
            let mut c = live.swap_remove(k);
            let mut s = String::new();
            let _ = c.out.read_to_string(&mut s);
            let line = s.lines().last().unwrap_or("");
            if let Some(x) = line.strip_prefix("OK ") {
                let f: Vec<u64> = x.split(' ').map(|v| v.parse().unwrap()).collect();
                st.calls += f[0];
                st.inputs += f[1];
                st.ok += f[0];
                schedules.insert(f[2]);
                overlapping += f[3];
                contended += f[4];
                finished += 1;
            } else {
                for c in &live {
                    unsafe { libc::kill(c.pid, libc::SIGKILL) };
                }
                let body = if let Some(x) = line.strip_prefix("BAD ") {
                    format!("{x},\"race_seed\":{}", c.seed)
                } else {
                    let sig = libc::WIFSIGNALED(status).then(|| libc::WTERMSIG(status));
                    if s.contains("\"status\":\"error\"") {
                        return Outcome::Unclear(format!("race child: {s}"));
                    }
                    format!("\"what\":{},\"race_seed\":{}", report::esc(&format!("a process with concurrent calls ended with signal {sig:?}, output {}", s.trim())), c.seed)
                };
                return Outcome::Fail(format!("{body},{}", report::stats(&st)));
            }
        }
        if !progress {
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    st.seen.add(schedules.len());
    Outcome::Ok(format!(
        "{},\"processes\":{finished},\"distinct_schedules\":{},\"overlapping_calls\":{overlapping},\"contended_first_calls\":{contended}",
        report::stats(&st),
        schedules.len()
    ))
}
