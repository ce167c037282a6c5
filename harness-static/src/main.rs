//! Runs the same calls as `pkh dump` on a build of the library with other
//! features, and records histories in which the static function takes part.
#![allow(dead_code)]
#[path = "../../harness/src/calls.rs"]
mod calls;
#[path = "../../harness/src/dump.rs"]
mod dump;
#[path = "../../harness/src/histories.rs"]
mod histories;
#[path = "../../harness/src/table.rs"]
mod table;
#[path = "../../harness/src/util.rs"]
mod util;

use std::collections::HashMap;

fn main() {
    let mut args = std::env::args().skip(1);
    let cmd = args.next().expect("command");
    let mut opt: HashMap<String, String> = HashMap::new();
    while let Some(k) = args.next() {
        opt.insert(k.trim_start_matches("--").to_string(), args.next().expect("value"));
    }
    let get = |k: &str| opt.get(k).unwrap_or_else(|| panic!("missing --{}", k)).as_str();
    let rep: &'static util::Report = Box::leak(Box::new(util::Report::new(get("out"))));
    util::panic_hook(rep);
    util::watchdog(rep, std::time::Duration::from_secs(100));
    let c = calls::Ctx {
        rep,
        ladder: Some(table::Ladder::load(get("ladder"))),
        seed: opt.get("seed").map(|s| s.parse().unwrap()).unwrap_or(1),
        thorough: opt.get("tier").map(|t| t == "thorough").unwrap_or(false),
    };
    match cmd.as_str() {
        "dump" => dump::write(&c, get("file"), get("by")),
        #[cfg(feature = "static")]
        "history" => {
            let f: histories::Callee = std::sync::Arc::new(dump::evaluate_static);
            histories::history(&c, "clones", get("n").parse().unwrap(), get("stream").parse().unwrap(), get("trace"), vec![(1, f)])
        }
        _ => panic!("unknown command {}", cmd),
    }
    rep.write();
    let bad = rep.nviol.load(std::sync::atomic::Ordering::Relaxed) > 0;
    std::process::exit(if bad { 1 } else { 0 });
}
