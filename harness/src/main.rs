//! `lab CMD OUTDIR SEED SCALE [args]`: runs the library under observation and records what it did.

#![cfg_attr(feature = "anticipate", feature(step_trait))]

mod cmds;
mod ctx;
mod gen;
mod variants;

use std::sync::atomic::Ordering as AO;
use std::time::Duration;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: lab CMD OUTDIR SEED SCALE [args]");
        std::process::exit(2);
    }
    // Panics are data: they are caught, and reported as outcomes.
    std::panic::set_hook(Box::new(|_| ()));
    // A comparison that neither ends nor calls back is ended here.
    let limit: u64 = std::env::var("LAB_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(90);
    std::thread::spawn(move || {
        let mut last = ctx::PROGRESS.load(AO::Relaxed);
        let mut quiet = 0;
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = ctx::PROGRESS.load(AO::Relaxed);
            if now == last { quiet += 1 } else { quiet = 0; last = now; }
            if quiet >= limit {
                eprintln!("HANG: no progress for {limit} s");
                std::process::exit(97);
            }
        }
    });
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || cmds::run(&args[1], &args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5..]))
        .unwrap();
    let code = match h.join() {
        Ok(c) => c,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("harness error: {m}");
            3
        },
    };
    std::process::exit(code);
}
