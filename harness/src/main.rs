//! Replays the contracts of the properties on the real code over enumerated and random inputs.
//! usage: harness PROPERTY --seed N --tier quick|thorough --out REPORT.json --scratch DIR --budget SECONDS [--only KEY]
mod bind;
mod core;
mod doccheck;
mod e2e;
#[cfg(feature = "hooks")]
mod hooked;
mod pymodel;

use crate::core::*;
use std::time::{Duration, Instant};

fn main() {
    // Non-ASCII module file names need a UTF-8 file system encoding in the embedded interpreter
    std::env::set_var("LC_ALL", "C.UTF-8");
    std::env::set_var("PYTHONUTF8", "1");
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let pid = args[1].clone();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = std::path::PathBuf::from(get("--out").expect("--out"));
    let scratch = std::path::PathBuf::from(get("--scratch").expect("--scratch"));
    let budget: u64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(120);
    let mut ctx = Ctx {
        seed,
        thorough: get("--tier").as_deref() == Some("thorough"),
        rng: Rng::new(seed),
        scratch,
        evaluations: 0,
        distinct: Default::default(),
        samples: Vec::new(),
        violations: Vec::new(),
        rule: String::new(),
        deadline: Instant::now() + Duration::from_secs(budget),
        only: get("--only"),
        trace: get("--trace"),
    };
    install_panic_hook();
    start_watchdog(out.with_extension("stuck.json"), Duration::from_secs(40));
    pyo3::prepare_freethreaded_python();
    // A large stack keeps deep recursion of the oracle itself out of the picture
    let ctx = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let r = guarded(|| {
                #[cfg(feature = "hooks")]
                hooked::run(&pid, &mut ctx);
                e2e::run(&pid, &mut ctx);
            });
            let mut complete = !ctx.expired();
            if let Err(p) = r {
                // A failure of the harness itself, outside of any case
                eprintln!("harness error: {p}; last case {:?}", current_case());
                complete = false;
            }
            (ctx, complete)
        })
        .unwrap()
        .join()
        .unwrap();
    write_report(&out, &ctx.0, ctx.1);
    std::process::exit(0);
}
