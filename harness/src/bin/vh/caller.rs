//! harness::caller under the watching allocator.
use crate::heap::{self, LIVE, LIVE_BYTES, ON};
use crate::report::{self, Outcome};
use harness::caller::{self, Account, Mine, Seen};
use harness::gen::Scale;
use harness::ops::Stats;
use std::sync::atomic::Ordering::Relaxed;

pub fn run(sc: Scale, seed: u64, watch: bool) -> Outcome {
    // panics here are the caller's own
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<Mine>().is_none() {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            if loc.contains("src/bin/vh/") || loc.contains("harness") {
                println!("\n{{\"status\":\"error\",\"why\":{}}}", report::esc(&format!("harness panic: {msg} at {loc}")));
            } else {
                println!("\n{{\"status\":\"fail\",\"what\":{},\"at\":{}}}", report::esc(&format!("panic in a call that runs code of the caller: {msg}")), report::esc(&loc));
            }
            std::process::exit(1);
        }
    }));
    let watching = Account {
        on: |b| ON.store(b, Relaxed),
        live: || (LIVE.load(Relaxed), LIVE_BYTES.load(Relaxed)),
        offence: heap::offence,
        compact: || unsafe { crate::WATCH.compact() },
    };
    let (mut st, mut seen) = (Stats::default(), Seen::default());
    match caller::run(sc, seed, if watch { &watching } else { &caller::NO_ACCOUNT }, &mut st, &mut seen) {
        Ok(()) => Outcome::Ok(format!("{},{}", report::stats(&st), seen.json())),
        Err(w) => Outcome::Fail(format!(
            "\"what\":{},\"op\":{},\"src_len\":{},\"src\":{},{}",
            report::esc(&w.what),
            report::esc(&w.op),
            w.src.len(),
            report::esc(&report::hex(&w.src[..w.src.len().min(400)])),
            seen.json()
        )),
    }
}
