//! Histories: recorded for TLC to judge against History.tla (C04, C17, C22),
//! and the concurrent sweeps of C17.
use crate::calls::*;
use crate::histories::*;
use crate::table::*;
use crate::util::*;
use poker::{Card, Eval, EvalError, Evaluator};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};

/// A history of several threads on shared evaluators.  Every event takes a
/// number from one counter: a start before its call, a finish after it.
pub fn concurrent_history(c: &Ctx, threads: usize, calls: usize, stream: u64, path: &str) {
    let mut rng = Rng::new(c.seed, 170_000 + stream);
    let ruler = Ruler::new(c.l(), &Evaluator::new());
    let mut inputs = pool(c, &mut rng, 24);
    // calls that take long enough to meet others
    for n in 9..14 { let mut d: Vec<usize> = (0..52).collect(); rng.shuffle(&mut d); inputs.push(d[..n].to_vec()); }
    let seq = Arc::new(AtomicU64::new(0));
    let late: Arc<Mutex<Vec<(u64, u64, usize, Vec<usize>, Res)>>> = Default::default();
    let log: Mutex<Vec<(u64, Value)>> = Mutex::new(vec![]);
    let shared: Vec<Arc<Evaluator>> = (0..2).map(|_| Arc::new(Evaluator::new())).collect();
    let mut first = vec![];
    for id in 1..=2 { first.push((seq.fetch_add(1, SeqCst), json!({"k": "make", "ev": id, "how": "new"}))); }
    // each call alone, first
    for h in &inputs {
        let r: Res = guard(|| shared[0].evaluate(to_cards(h)));
        first.push((seq.fetch_add(1, SeqCst), json!({"k": "start", "th": 0, "ev": 1, "cards": names(h)})));
        first.push((seq.fetch_add(1, SeqCst), json!({"k": "finish", "th": 0, "out": ruler.full(&r)})));
    }
    log.lock().unwrap().extend(first);
    let barrier = Barrier::new(threads);
    let ids = AtomicUsize::new(10);
    std::thread::scope(|s| {
        let mut running = vec![];
        for w in 1..=threads {
            let (barrier, inputs, shared, seq, late, log, ruler, ids) = (&barrier, &inputs, &shared, &seq, &late, &log, &ruler, &ids);
            let mut rng = Rng::new(c.seed, 171_000 + 64 * stream + w as u64);
            running.push((w, s.spawn(move || {
                // calls made when the thread ends, as the values kept for it are dropped
                let h: Vec<Vec<usize>> = (0..3).map(|_| inputs[rng.below(inputs.len())].clone()).collect();
                let at_end = { let (e, seq, late) = (shared[w % 2].clone(), seq.clone(), late.clone()); move || for h in &h {
                    let a = seq.fetch_add(1, SeqCst);
                    let r: Res = guard(|| e.evaluate(to_cards(h)));
                    let b = seq.fetch_add(1, SeqCst);
                    late.lock().unwrap_or_else(|p| p.into_inner()).push((a, b, w, h.clone(), r));
                } };
                let mut at_end = Some(AtEnd(Box::new(at_end)));
                if w % 2 == 0 { AT_END.with(|x| x.borrow_mut().extend(at_end.take())); }
                let mut mine: Vec<(u64, Value)> = vec![];
                let mut done: Vec<(u64, u64, usize, Vec<usize>, Res)> = vec![];
                let mut own: Option<(usize, Evaluator)> = None;
                BUSY[w].store(true, Relaxed);
                barrier.wait();
                for i in 0..calls {
                    beat(w, i as u64);
                    if rng.chance(1, 25) {
                        if let Some((id, e)) = own.take() {
                            let n = seq.fetch_add(1, SeqCst);
                            drop(e);
                            mine.push((n, json!({"k": "giveup", "ev": id})));
                        } else {
                            let e = if rng.chance(1, 2) { Evaluator::new() } else { (*shared[rng.below(2)]).clone() };
                            let id = ids.fetch_add(1, SeqCst);
                            mine.push((seq.fetch_add(1, SeqCst), json!({"k": "make", "ev": id})));
                            own = Some((id, e));
                        }
                    }
                    if rng.chance(1, 30) { std::hint::black_box(poker::deck::shuffled()); }
                    let mut h = inputs[rng.below(inputs.len())].clone();
                    if distinct(&h) { rng.shuffle(&mut h); }
                    let cs = to_cards(&h);
                    let k = rng.below(3);
                    let (id, e): (usize, &Evaluator) = match &own { Some((id, e)) if k == 2 => (*id, e), _ => (1 + k % 2, &shared[k % 2]) };
                    // now and then, calls within the call: its container makes them
                    let inner: Vec<Vec<usize>> = if rng.chance(1, 12) { (0..rng.below(3)).map(|_| { let mut h = inputs[rng.below(inputs.len())].clone(); if distinct(&h) { rng.shuffle(&mut h); } h }).collect() } else { vec![] };
                    let fails = !inner.is_empty() && rng.chance(1, 5);
                    let within = RefCell::new(vec![]);
                    let then = || {
                        for h in &inner {
                            let a = seq.fetch_add(1, SeqCst);
                            let r: Res = guard(|| shared[h.len() % 2].evaluate(to_cards(h)));
                            within.borrow_mut().push((a, seq.fetch_add(1, SeqCst), 1 + h.len() % 2, h.clone(), r));
                        }
                        if fails { panic!("this container fails"); }
                    };
                    let a = seq.fetch_add(1, SeqCst);
                    let r: Res = if inner.is_empty() { guard(|| e.evaluate(&cs)) } else { guard(|| e.evaluate(asking(&cs, &then))) };
                    let b = seq.fetch_add(1, SeqCst);
                    done.push((a, b, id, h, r));
                    done.extend(within.into_inner());
                }
                for (a, b, id, h, r) in done {
                    mine.push((a, json!({"k": "start", "th": w, "ev": id, "cards": names(&h)})));
                    mine.push((b, match &r { Err(p) if p.contains("this container fails") => json!({"k": "abandon", "th": w}), _ => json!({"k": "finish", "th": w, "out": ruler.full(&r)}) }));
                }
                if let Some((id, e)) = own.take() { let n = seq.fetch_add(1, SeqCst); drop(e); mine.push((n, json!({"k": "giveup", "ev": id}))); }
                BUSY[w].store(false, Relaxed);
                if let Some(e) = at_end { AT_END.with(|x| x.borrow_mut().push(e)); }
                mine.push((seq.fetch_add(1, SeqCst), json!({"k": "ending", "th": w})));
                log.lock().unwrap().extend(mine);
            })));
        }
        // joining one by one waits for their values to be dropped
        for (w, t) in running {
            if t.join().is_err() { c.rep.violation(json!({"what": "a thread panicked outside of its guarded calls", "thread": w})); }
            let n = seq.fetch_add(1, SeqCst);
            log.lock().unwrap().push((n, json!({"k": "gone", "th": w})));
        }
    });
    for (a, b, w, h, r) in late.lock().unwrap().iter() {
        let mut log = log.lock().unwrap();
        log.push((*a, json!({"k": "start", "th": w, "ev": 1 + w % 2, "cards": names(h), "when": "ending"})));
        log.push((*b, json!({"k": "finish", "th": w, "out": ruler.full(r)})));
    }
    let mut log = log.into_inner().unwrap();
    log.sort_by_key(|e| e.0);
    // how much really happened at the same time
    let (mut open, mut most, mut overlapping) = (0usize, 0usize, 0usize);
    for (_, e) in &log { match e["k"].as_str() { Some("start") => { open += 1; most = most.max(open); if open > 1 { overlapping += 1; } } Some("finish") | Some("abandon") => open -= 1, _ => {} } }
    let lines: Vec<Value> = log.into_iter().map(|e| e.1).collect();
    c.rep.note("recorded_events", lines.len());
    c.rep.note("most_calls_at_once", most);
    c.rep.note("calls_started_during_another", overlapping);
    c.rep.add((threads * calls) as u64);
    c.rep.sample(json!({"history_excerpt": lines.iter().skip(lines.len() / 2).take(4).collect::<Vec<_>>()}));
    write_lines(path, &lines);
}

/// Something to do when a thread's values are dropped.
struct AtEnd(Box<dyn Fn()>);
impl Drop for AtEnd { fn drop(&mut self) { (self.0)() } }
thread_local! { static AT_END: RefCell<Vec<AtEnd>> = const { RefCell::new(Vec::new()) }; }

/// C17: heavy contention; every concurrent result against the same call alone.
pub fn c17(c: &Ctx) {
    // an evaluator, its results and its errors cross threads
    fn crosses<T: Send + Sync>() {}
    crosses::<Evaluator>();
    crosses::<Eval>();
    crosses::<EvalError>();
    crosses::<Card>();
    let shared = match guard(Evaluator::new) { Ok(e) => e, Err(p) => { c.rep.violation(json!({"what": "making an evaluator panicked", "panic": p})); return; } };
    let n = workers();
    let rounds = if c.thorough { 60 } else { 6 };
    let per = if c.thorough { 2_000_000 } else { 400_000 };
    let mut total = 0u64;
    for pattern in 0..8 {
        for round in 0..rounds {
            if c.rep.stop() { return; }
            let mut rng = Rng::new(c.seed, 173_000 + 100 * pattern + round);
            let size = [2, 8, 64, 512, 16, 4, 32, 1024][pattern as usize];
            let inputs: Vec<Vec<usize>> = match pattern {
                // two hands ping-pong; hot small sets; distinct hands per thread; large hands against small ones
                5 => { let mut v = pool(c, &mut rng, 3); v.push((0..13).map(|r| 4 * r + rng.below(4)).collect()); v }
                0 | 1 | 4 => (0..size).map(|_| c.l().hand(rng.below(7462), &mut rng).to_vec()).collect(),
                _ => pool(c, &mut rng, size),
            };
            let cards: Vec<Vec<Card>> = inputs.iter().map(|h| to_cards(h)).collect();
            // alone: on this thread, nothing else running
            let alone: Vec<Res> = cards.iter().map(|h| guard(|| shared.evaluate(h))).collect();
            let threads = if pattern == 4 { 3 * n } else { n.max(2) }.min(MAXW - 1);
            let calls = match pattern { 5 => per / 40, 3 | 7 => per / 4, 4 => per / 3, _ => per } / if round == 0 { 1 } else { 2 };
            let barrier = Barrier::new(threads);
            let start = AtomicBool::new(false);
            std::thread::scope(|s| {
                for w in 0..threads {
                    let (barrier, start, cards, alone, shared, inputs) = (&barrier, &start, &cards, &alone, &shared, &inputs);
                    let mut rng = Rng::new(c.seed, 174_000 + 10_000 * pattern + 100 * round + w as u64);
                    s.spawn(move || {
                        BUSY[w].store(true, Relaxed);
                        barrier.wait();
                        start.store(true, SeqCst);
                        let churn = pattern == 6 && w % 4 == 3;
                        for i in 0..calls {
                            let k = match pattern { 2 | 3 => (w + threads * rng.below(cards.len().div_ceil(threads))) % cards.len(), _ => rng.below(cards.len()) };
                            beat(w, mask(&inputs[k]));
                            if churn {
                                if i > calls / 2000 { break; }
                                let e = if rng.chance(1, 2) { shared.clone() } else { Evaluator::new() };
                                let r: Res = guard(|| e.evaluate(&cards[k]));
                                if !same(&alone[k], &r) || e != *shared { c.rep.violation(json!({"what": "an evaluator made while others evaluate is different", "cards": names(&inputs[k]), "alone": show(&alone[k]), "got": show(&r)})); break; }
                                std::hint::black_box(poker::deck::shuffled());
                                continue;
                            }
                            let r: Res = guard(|| shared.evaluate(&cards[k]));
                            if !same(&alone[k], &r) {
                                c.rep.violation(json!({"what": "a concurrent evaluation differs from the same call alone", "pattern": pattern, "threads": threads, "cards": names(&inputs[k]), "alone": show(&alone[k]), "got": show(&r)}));
                                break;
                            }
                            if pattern == 1 && i % 64 == 0 { std::thread::yield_now(); }
                        }
                        BUSY[w].store(false, Relaxed);
                    });
                }
            });
            total += (threads * calls) as u64;
            // and afterwards, alone again
            for (k, h) in cards.iter().enumerate() {
                let r: Res = guard(|| shared.evaluate(h));
                c.rep.check(same(&alone[k], &r), || json!({"what": "a call alone after concurrent ones differs from before", "cards": names(&inputs[k]), "before": show(&alone[k]), "after": show(&r)}));
            }
        }
    }
    c.rep.add(total);
    c.rep.note("concurrent_calls", total);
    // threads with small stacks: an overflow would end the process
    for k in 0..8 {
        let mut rng = Rng::new(c.seed, 176_000 + k);
        let inputs: Vec<Vec<usize>> = pool(c, &mut rng, 40);
        let cards: Vec<Vec<Card>> = inputs.iter().map(|h| to_cards(h)).collect();
        let alone: Vec<Res> = cards.iter().map(|h| guard(|| shared.evaluate(h))).collect();
        std::thread::scope(|s| {
            let (cards, alone, shared, inputs) = (&cards, &alone, &shared, &inputs);
            let t = std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(s, move || {
                BUSY[0].store(true, Relaxed);
                let own = guard(|| match k % 3 { 0 => Evaluator::new(), 1 => Evaluator::default(), _ => shared.clone() });
                for (i, h) in cards.iter().enumerate() {
                    beat(0, mask(&inputs[i]));
                    let r: Res = guard(|| if let (Ok(e), 0) = (&own, i % 2) { e.evaluate(h) } else { shared.evaluate(h) });
                    c.rep.check(same(&alone[i], &r), || json!({"what": "an evaluation in a thread with a small stack differs", "stack": 256 << 10, "cards": names(&inputs[i]), "alone": show(&alone[i]), "got": show(&r)}));
                    std::hint::black_box((poker::deck::shuffled(), r.map(|r| r.map(|e| e.to_string()).map_err(|e| e.to_string()))).1.ok());
                }
                BUSY[0].store(false, Relaxed);
            });
            t.expect("no thread").join().ok();
        });
    }
    // far more threads than processors, in calls long enough to be interrupted:
    // nearly all of them are inside a call at any time
    for (k, threads) in [40usize, 120, 220].into_iter().enumerate() {
        if c.rep.stop() { return; }
        let mut rng = Rng::new(c.seed, 178_000 + k as u64);
        let mut inputs: Vec<Vec<usize>> = pool(c, &mut rng, 8);
        for i in 0..24 { let mut d: Vec<usize> = (0..52).collect(); rng.shuffle(&mut d); inputs.push(d[..28 + i % 7].to_vec()); }
        let cards: Vec<Vec<Card>> = inputs.iter().map(|h| to_cards(h)).collect();
        let alone: Vec<Res> = cards.iter().map(|h| guard(|| shared.evaluate(h))).collect();
        let start = std::time::Instant::now() + std::time::Duration::from_millis(60);
        let (inside, most) = (AtomicUsize::new(0), AtomicUsize::new(0));
        let calls = if c.thorough { 100 } else { 16 };
        std::thread::scope(|s| for w in 0..threads {
            let (cards, alone, shared, inputs, inside, most) = (&cards, &alone, &shared, &inputs, &inside, &most);
            s.spawn(move || {
                BUSY[w].store(true, Relaxed);
                let own = if w % 3 == 0 { Some(shared.clone()) } else { None };
                std::thread::sleep(start.saturating_duration_since(std::time::Instant::now()));
                for i in 0..calls {
                    let k = (i * 7 + w * 5) % cards.len();
                    beat(w, mask(&inputs[k]));
                    most.fetch_max(inside.fetch_add(1, SeqCst) + 1, SeqCst);
                    let r: Res = guard(|| own.as_ref().unwrap_or(shared).evaluate(&cards[k]));
                    inside.fetch_sub(1, SeqCst);
                    if !same(&alone[k], &r) {
                        c.rep.violation(json!({"what": "an evaluation among very many concurrent ones differs from the same call alone", "threads": threads, "cards": names(&inputs[k]), "alone": show(&alone[k]), "got": show(&r)}));
                        break;
                    }
                }
                BUSY[w].store(false, Relaxed);
            });
        });
        c.rep.add((threads * calls) as u64);
        c.rep.note(&format!("most_calls_at_once_with_{}_threads", threads), most.into_inner());
    }
    // threads that end, evaluators made in one and used in others, sent and returned
    for t in 0..if c.thorough { 400 } else { 40 } {
        let mut rng = Rng::new(c.seed, 179_000 + t);
        let inputs = pool(c, &mut rng, 12);
        let alone: Vec<Res> = inputs.iter().map(|h| guard(|| shared.evaluate(to_cards(h)))).collect();
        let e = std::thread::spawn(Evaluator::new).join().unwrap();
        let a = Arc::new(e);
        let hs: Vec<_> = (0..n).map(|_| { let (a, inputs) = (a.clone(), inputs.clone()); std::thread::spawn(move || inputs.iter().map(|h| guard(|| a.evaluate(to_cards(h)))).collect::<Vec<Res>>()) }).collect();
        for h in hs {
            let v = h.join().unwrap();
            for k in 0..inputs.len() { c.rep.check(same(&alone[k], &v[k]), || json!({"what": "an evaluator made in another thread", "cards": names(&inputs[k]), "alone": show(&alone[k]), "got": show(&v[k])})); }
        }
    }
    // threads that end: a value the user keeps for a thread evaluates when it
    // is dropped, whether made before or after the thread's first evaluation
    let mut last = 0u64;
    for t in 0..if c.thorough { 4000 } else { 400 } {
        if c.rep.stop() { return; }
        let mut rng = Rng::new(c.seed, 176_000 + t);
        let mut inputs = pool(c, &mut rng, 6);
        let mut d: Vec<usize> = (0..52).collect();
        rng.shuffle(&mut d);
        inputs.push(d[..9 + t as usize % 5].to_vec());
        let alone: Vec<Res> = inputs.iter().map(|h| guard(|| shared.evaluate(to_cards(h)))).collect();
        let got: Arc<Mutex<Vec<Vec<Res>>>> = Default::default();
        let text: Arc<Mutex<Vec<bool>>> = Default::default();
        {
            let (e, inputs, got, text) = (shared.clone(), inputs.clone(), got.clone(), text.clone());
            let deck: Vec<Card> = poker::deck::generate().collect();
            std::thread::spawn(move || {
                let all = { let (e, inputs) = (e.clone(), inputs.clone()); move || inputs.iter().map(|h| guard(|| e.evaluate(to_cards(h)))).collect::<Vec<Res>>() };
                let at_end = { let (all, got) = (all.clone(), got.clone()); move || {
                    let r = all();
                    let ok = guard(|| {
                        let s: Vec<String> = poker::deck::generate().map(|x| x.rank_suit_string()).collect();
                        let v: Vec<Card> = Card::parse_to_iter(s).filter_map(|r| r.ok()).collect();
                        let e = Evaluator::new();
                        v == deck && e == Evaluator::default() && poker::cards!("As Kd").count() == 2
                    });
                    text.lock().unwrap_or_else(|p| p.into_inner()).push(ok == Ok(true));
                    got.lock().unwrap_or_else(|p| p.into_inner()).push(r);
                } };
                if t % 2 == 0 { AT_END.with(|x| x.borrow_mut().push(AtEnd(Box::new(at_end)))); let r = all(); got.lock().unwrap().push(r); }
                else { let r = all(); got.lock().unwrap().push(r); AT_END.with(|x| x.borrow_mut().push(AtEnd(Box::new(at_end)))); }
            }).join().ok();
        }
        let got = got.lock().unwrap_or_else(|p| p.into_inner());
        c.rep.check(got.len() == 2, || json!({"what": "a thread did not get to its end", "results": got.len()}));
        for (when, v) in got.iter().enumerate() {
            for k in 0..inputs.len() {
                last += 1;
                c.rep.check(same(&alone[k], &v[k]), || json!({"what": if when == 0 { "an evaluation in a new thread differs from the same call alone" } else { "an evaluation as a thread ends differs from the same call alone" }, "value_of_the_thread_made": if t % 2 == 0 { "before" } else { "after" }, "cards": names(&inputs[k]), "alone": show(&alone[k]), "got": show(&v[k])}));
            }
        }
        c.rep.check(text.lock().unwrap_or_else(|p| p.into_inner())[..] == [true], || json!({"what": "a deck, cards or an evaluator made as a thread ends are different"}));
    }
    c.rep.note("calls_in_ending_threads", last);
    // decks generated and shuffled, cards parsed, in all threads at once
    let deck: Vec<Card> = poker::deck::generate().collect();
    par(if c.thorough { 20_000 } else { 2_000 }, c.rep, |w, t| {
        beat(w, t as u64);
        let g: Vec<Card> = poker::deck::generate().collect();
        let mut s = poker::deck::shuffled();
        s.sort_by_key(|x| number_of(*x));
        let mut d = deck.clone();
        d.sort_by_key(|x| number_of(*x));
        c.rep.check(g == deck && s == d, || json!({"what": "a deck made while other threads make theirs", "generated": names_of(&g), "shuffled": names_of(&s)}));
        let v: Vec<Card> = Card::parse_to_iter(deck.iter().map(|x| x.rank_suit_string())).filter_map(|r| r.ok()).collect();
        c.rep.check(v == deck, || json!({"what": "cards parsed while other threads parse", "got": names_of(&v)}));
    });
    c.rep.note("threads", n);
}

/// Inputs of the start-up storm: fixed, so that processes can be compared.
fn storm_inputs(c: &Ctx, t: u64) -> Vec<Vec<usize>> { pool(c, &mut Rng::new(c.seed, 175_000 + t), 24) }

/// One process: `threads` threads (0: none) begin at the same instant, each
/// obtaining an evaluator and evaluating; prints what each got.
pub fn storm(c: &Ctx, threads: usize, t: u64, first: &str) {
    let inputs = storm_inputs(c, t);
    let cards: Vec<Vec<Card>> = inputs.iter().map(|h| to_cards(h)).collect();
    let run = |k0: usize, e: &Evaluator| -> Vec<(usize, Res)> { (0..cards.len()).map(|i| { let k = (i + k0) % cards.len(); (k, guard(|| e.evaluate(&cards[k]))) }).collect() };
    let mut got: Vec<Vec<(usize, Res)>> = vec![];
    if threads == 0 {
        let e = Evaluator::new();
        got.push(run(0, &e));
    } else {
        let ready = AtomicUsize::new(0);
        let shared = if first == "shared" { Some(Evaluator::new()) } else { None };
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads).map(|w| {
                let (ready, run, shared) = (&ready, &run, &shared);
                s.spawn(move || {
                    ready.fetch_add(1, SeqCst);
                    while ready.load(SeqCst) < threads { std::hint::spin_loop(); }
                    match (first, shared) {
                        (_, Some(e)) => run(w * 5, e),
                        ("default", _) => run(w * 5, &Evaluator::default()),
                        ("clone", _) => { let a = Evaluator::new(); let b = a.clone(); drop(a); run(w * 5, &b) }
                        _ => run(w * 5, &Evaluator::new()),
                    }
                })
            }).collect();
            for h in hs { got.push(h.join().unwrap_or_default()); }
        });
    }
    let ruler = Ruler::new(c.l(), &Evaluator::new());
    let mut out: Vec<Value> = vec![];
    for g in got {
        let mut v = vec![Value::Null; cards.len()];
        for (k, r) in g { v[k] = ruler.full(&r); }
        out.push(Value::Array(v));
    }
    c.rep.note("got", Value::Array(out));
}

fn child(args: &[String]) -> Result<Value, String> {
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new(exe).args(args).output().map_err(|e| e.to_string())?;
    let path = &args[args.iter().position(|a| a == "--out").unwrap() + 1];
    let text = std::fs::read_to_string(path).map_err(|_| format!("a child process ended with {:?}", out.status))?;
    let _ = std::fs::remove_file(path);
    serde_json::from_str(&text).map_err(|e| e.to_string())
}

/// C17 at process start: what the threads of fresh processes get, against a
/// fresh process with no threads.
pub fn c17_start(c: &Ctx, ladder: &str, dir: &str) {
    let runs = if c.thorough { 1500 } else { 160 };
    let tables = 8u64;
    let arg = |threads: usize, t: u64, first: &str, name: String| -> Vec<String> {
        ["storm", "--threads", &threads.to_string(), "--table", &t.to_string(), "--first", first, "--ladder", ladder, "--seed", &c.seed.to_string(), "--out", &format!("{}/storm-{}.json", dir, name)].iter().map(|s| s.to_string()).collect()
    };
    let alone: Vec<Value> = (0..tables).map(|t| child(&arg(0, t, "new", format!("a{}", t))).map(|v| v["notes"]["got"][0].clone()).unwrap_or_else(|e| panic!("reference process: {}", e))).collect();
    let next = AtomicUsize::new(0);
    // few at a time: each child uses all cores
    std::thread::scope(|s| {
        for w in 0..2 {
            let (next, alone, arg) = (&next, &alone, &arg);
            s.spawn(move || loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= runs || c.rep.stop() { break; }
                let t = i as u64 % tables;
                let first = ["new", "shared", "new", "default", "clone"][i % 5];
                let threads = [8, 4, 16, 2][(i / 5) % 4];
                match child(&arg(threads, t, first, format!("{}-{}", w, i))) {
                    Err(e) => c.rep.violation(json!({"what": "a process with threads died", "how": first, "error": e})),
                    Ok(v) => for (w, g) in v["notes"]["got"].as_array().into_iter().flatten().enumerate() {
                        let inputs = storm_inputs(c, t);
                        for k in 0..inputs.len() {
                            c.rep.check(g[k] == alone[t as usize][k], || json!({"what": "a thread of a fresh process gets another result than alone", "threads": threads, "evaluator": first, "thread": w, "cards": names(&inputs[k]), "alone": alone[t as usize][k], "got": g[k]}));
                        }
                    },
                }
            });
        }
    });
    c.rep.note("fresh_processes", runs);
}

/// C04: a call made first in a fresh process, against the same call late in
/// the history of this one.
pub fn first_call(c: &Ctx, hand: &[usize]) {
    let cs = to_cards(hand);
    let e = Evaluator::new();
    let r: Res = guard(|| e.evaluate(&cs));
    c.rep.note("got", Ruler::new(c.l(), &e).full(&r));
}
pub fn c04_first(c: &Ctx, ladder: &str, dir: &str) {
    let n = if c.thorough { 3000 } else { 300 };
    let mut rng = Rng::new(c.seed, 48);
    let inputs = pool(c, &mut rng, n);
    let ev = Evaluator::new();
    // a history before
    for h in &inputs { let _ = guard(|| ev.evaluate(to_cards(h))); }
    let ruler = Ruler::new(c.l(), &ev);
    par(n, c.rep, |w, i| {
        let late = ruler.full(&guard(|| ev.evaluate(to_cards(&inputs[i]))));
        let list = inputs[i].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let args: Vec<String> = ["first", "--hand", &list, "--ladder", ladder, "--out", &format!("{}/first-{}.json", dir, i)].iter().map(|s| s.to_string()).collect();
        beat(w, i as u64);
        match child(&args) {
            Err(e) => c.rep.violation(json!({"what": "the process died on its first evaluation", "cards": names(&inputs[i]), "error": e})),
            Ok(v) => c.rep.check(v["notes"]["got"] == late, || json!({"what": "a call late in a history differs from the same call made first", "cards": names(&inputs[i]), "first": v["notes"]["got"], "late": late})),
        }
        if i == 17 { c.rep.sample(json!({"first_call_of_a_process": names(&inputs[i]), "late": late})); }
    });
    c.rep.note("first_calls_of_processes", n);
}
