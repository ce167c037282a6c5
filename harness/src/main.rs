use pkh::calls::Ctx;
use pkh::util::{self, Report};
use pkh::{cards, dump, evals, histories, session, shuffles, table, tables, threads};
use std::collections::HashMap;

fn main() {
    let mut args = std::env::args().skip(1);
    let cmd = args.next().expect("command");
    let mut opt: HashMap<String, String> = HashMap::new();
    while let Some(k) = args.next() {
        opt.insert(k.trim_start_matches("--").to_string(), args.next().expect("value"));
    }
    let get = |k: &str| opt.get(k).unwrap_or_else(|| panic!("missing --{}", k)).as_str();
    let rep: &'static Report = Box::leak(Box::new(Report::new(get("out"))));
    util::panic_hook(rep);
    util::watchdog(rep, std::time::Duration::from_secs(100));
    let ctx = Ctx {
        rep,
        ladder: opt.get("ladder").map(|p| table::Ladder::load(p)),
        seed: opt.get("seed").map(|s| s.parse().unwrap()).unwrap_or(1),
        thorough: opt.get("tier").map(|t| t == "thorough").unwrap_or(false),
    };
    match cmd.as_str() {
        "C01" => evals::c01(&ctx),
        "C02" => evals::c02(&ctx),
        "C03" => evals::c03(&ctx),
        "C04" => { threads::c04_first(&ctx, get("ladder"), get("dir")); evals::c04(&ctx) }
        "C05" => evals::c05(&ctx),
        "C06" => evals::c06(&ctx),
        "C07" => evals::c07(&ctx, &evals::load_classes(get("classes"))),
        "C08" => evals::c08(&ctx, &evals::load_classes(get("classes"))),
        "C09" => cards::c09(&ctx, &cards::load_cards(get("cards"))),
        "C10" => cards::c10(&ctx, &cards::load_cards(get("cards"))),
        "C11" => cards::c11(&ctx, &cards::load_cards(get("cards"))),
        "C12" => cards::c12(&ctx),
        "C13" => cards::c13(&ctx),
        "C14" => shuffles::c14(&ctx, get("dir")),
        "shuffle-once" => shuffles::once(&ctx),
        "C15" => cards::c15(&ctx),
        "C17" => { threads::c17_start(&ctx, get("ladder"), get("dir")); threads::c17(&ctx) }
        "storm" => threads::storm(&ctx, get("threads").parse().unwrap(), get("table").parse().unwrap(), get("first")),
        "first" => threads::first_call(&ctx, &get("hand").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect::<Vec<_>>()),
        "history" => histories::history(&ctx, get("how"), get("n").parse().unwrap(), get("stream").parse().unwrap(), get("trace"), vec![]),
        "answers" => histories::answers(&ctx, get("way"), get("n").parse().unwrap(), get("stream").parse().unwrap(), get("file"), get("keep").parse().unwrap(), get("trace")),
        "concurrent" => threads::concurrent_history(&ctx, get("threads").parse().unwrap(), get("n").parse().unwrap(), get("stream").parse().unwrap(), get("trace")),
        "dump" => dump::write(&ctx, get("file"), "evaluator"),
        "C22" => evals::c22(&ctx),
        "C23" => tables::c23(&ctx),
        "replay" => session::replay(&ctx, get("prop"), &get("files").split(',').map(String::from).collect::<Vec<_>>()),
        "record" => { session::record(&ctx, get("prop"), get("n").parse().unwrap(), get("stream").parse().unwrap(), get("trace")); }
        _ => panic!("unknown command {}", cmd),
    }
    rep.write();
    let bad = rep.nviol.load(std::sync::atomic::Ordering::Relaxed) > 0;
    std::process::exit(if bad { 1 } else { 0 });
}
