//! Histories: recorded for TLC to judge against History.tla (C04, C22, C24).
use crate::calls::*;
use crate::table::*;
use crate::util::*;
use poker::{Card, Eval, EvalError, Evaluator};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::sync::atomic::Ordering::*;
use std::sync::Arc;

/// Measures strengths by comparing with one evaluation per step of the ladder;
/// a relative notion, which says nothing about the right order.
pub struct Ruler(Vec<Eval>);
impl Ruler {
    pub fn new(l: &Ladder, ev: &Evaluator) -> Ruler {
        let mut rng = Rng::new(1, 1);
        let mut v: Vec<Eval> = (0..7462).filter_map(|s| { let h = l.hand(s, &mut rng).map(card); guard(|| ev.evaluate(h)).ok().and_then(|r| r.ok()) }).collect();
        v.sort();
        Ruler(v)
    }
    pub fn rank(&self, e: &Eval) -> usize { self.0.partition_point(|r| r < e) }
    /// everything a result says, with its strength
    pub fn full(&self, r: &Res) -> Value {
        match r {
            Ok(x) => { let mut v = eval_out(x); if let Ok(e) = x { v["strength"] = self.rank(e).into(); } v }
            Err(p) => json!({"t": "panic", "msg": p}),
        }
    }
}

/// Inputs with many repetitions and near misses: what a careless cache or
/// table would confuse.
pub fn pool(c: &Ctx, rng: &mut Rng, n: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![];
    while v.len() < n {
        let k = v.len();
        let h: Vec<usize> = match rng.below(9) {
            0 | 1 => c.l().hand(rng.below(7462), rng).to_vec(),
            2 => { let k = rng.range(6, 8); let mut d: Vec<usize> = (0..52).collect(); rng.shuffle(&mut d); d[..k].to_vec() }
            3 if k > 0 => { let mut h = v[rng.below(k)].clone(); if !h.is_empty() { let i = rng.below(h.len()); h[i] = rng.below(52); } h }
            4 if k > 0 => { // the same ranks in other suits
                let h = v[rng.below(k)].clone(); let p = rng.below(4); h.iter().map(|c| 4 * (c / 4) + (c + p) % 4).collect() }
            5 if k > 0 => { let mut h = v[rng.below(k)].clone(); let x = rng.below(52); h.push(x); h }
            6 if k > 0 => { let mut h = v[rng.below(k)].clone(); h.pop(); h }
            7 if rng.chance(1, 2) => { let k = rng.below(5); let mut d: Vec<usize> = (0..52).collect(); rng.shuffle(&mut d); d[..k].to_vec() }
            _ => { let s = rng.below(4); let mut d: Vec<usize> = (0..13).map(|r| 4 * r + s).collect(); rng.shuffle(&mut d); let k = rng.range(5, 7); d[..k].to_vec() }
        };
        if h.len() < 11 { v.push(h); }
    }
    v
}
pub fn distinct(h: &[usize]) -> bool { h.iter().fold((0u64, true), |(m, ok), &c| (m | 1 << c, ok && m >> c & 1 == 0)).1 }
pub fn to_cards(h: &[usize]) -> Vec<Card> { h.iter().map(|&c| card(c)).collect() }

/// Something that evaluates.
pub type Callee = Arc<dyn Fn(&[Card], &str) -> Result<Eval, EvalError> + Send + Sync>;
pub fn callee(e: Arc<Evaluator>) -> Callee { Arc::new(move |c, how| evaluate_as(&e, c, how)) }

/// A call whose container calls in turn when asked for its cards, and
/// perhaps fails then.
type Live = (i64, Option<Arc<Evaluator>>, Callee);
fn within(depth: usize, th: usize, rng: &RefCell<Rng>, lines: &RefCell<Vec<Value>>, live: &[Live], inputs: &[Vec<usize>], ruler: &Ruler) {
    let (mut h, k, how, inner, fails) = { let mut g = rng.borrow_mut(); (g.pick(inputs).clone(), g.below(live.len()), CONTAINERS[g.below(CONTAINERS.len())], g.below(3), g.chance(1, 5)) };
    if distinct(&h) { rng.borrow_mut().shuffle(&mut h); }
    let cs = to_cards(&h);
    let (id, own, f) = &live[k];
    lines.borrow_mut().push(json!({"k": "start", "th": th, "ev": id, "cards": names(&h), "depth": depth}));
    let r: Res = match own {
        Some(e) if depth > 0 => {
            let then = || {
                for _ in 0..inner { within(depth - 1, th, rng, lines, live, inputs, ruler); }
                if fails { panic!("this container fails"); }
            };
            guard(|| e.evaluate(asking(&cs, &then)))
        }
        _ => guard(|| f(&cs, how)),
    };
    match &r {
        Err(p) if p.contains("this container fails") => lines.borrow_mut().push(json!({"k": "abandon", "th": th})),
        _ => { let out = ruler.full(&r); lines.borrow_mut().push(json!({"k": "finish", "th": th, "out": out})) }
    }
}

/// A single-threaded history over several evaluators.  `more` are further
/// callees, there from the start.
pub fn history(c: &Ctx, ids_by: &str, n: usize, stream: u64, path: &str, more: Vec<(i64, Callee)>) {
    let mut rng = Rng::new(c.seed, 470_000 + stream);
    let ruler = Ruler::new(c.l(), &Evaluator::new());
    let inputs = pool(c, &mut rng, 40);
    let mut live: Vec<Live> = vec![];
    let mut lines: Vec<Value> = vec![];
    let mut next = 1i64;
    BUSY[0].store(true, Relaxed);
    for (id, f) in more { lines.push(json!({"k": "make", "ev": id, "how": "given"})); live.push((id, None, f)); next = next.max(id + 1); }
    let fixed = live.len();
    while lines.len() < n {
        beat(0, lines.len() as u64);
        let own: Vec<usize> = (fixed..live.len()).collect();
        if own.is_empty() || (own.len() < 4 && rng.chance(1, 30)) {
            let (how, e) = match rng.below(if ids_by == "clones" && !own.is_empty() { 6 } else { 2 }) {
                0 => ("new", guard(Evaluator::new)),
                1 if ids_by == "clones" => ("default", guard(Evaluator::default)),
                1 => ("new", guard(Evaluator::new)),
                2 => ("thread", guard(|| std::thread::spawn(Evaluator::new).join().unwrap())),
                _ => { let from = live[*rng.pick(&own)].1.clone().unwrap(); ("clone", guard(|| (*from).clone())) }
            };
            match e {
                Ok(e) => { let a = Arc::new(e); lines.push(json!({"k": "make", "ev": next, "how": how})); live.push((next, Some(a.clone()), callee(a))); next += 1; }
                Err(p) => { c.rep.violation(json!({"what": "making an evaluator panicked", "how": how, "panic": p})); break; }
            }
            continue;
        }
        if own.len() > 1 && rng.chance(1, 60) {
            let k = *rng.pick(&own);
            lines.push(json!({"k": "giveup", "ev": live[k].0}));
            live.remove(k);
            continue;
        }
        if rng.chance(1, 12) {
            let depth = rng.range(1, 3);
            let (r, out) = (RefCell::new(Rng::new(rng.next(), 1)), RefCell::new(vec![]));
            within(depth, 0, &r, &out, &live, &inputs, &ruler);
            lines.extend(out.into_inner());
            continue;
        }
        let mut h = inputs[if rng.chance(1, 2) { rng.below(10) } else { rng.below(40) }].clone();
        if distinct(&h) { rng.shuffle(&mut h); }
        let how = CONTAINERS[rng.below(CONTAINERS.len())];
        let (id, _, f) = &live[rng.below(live.len())];
        let cs = to_cards(&h);
        let r: Res = guard(|| f(&cs, how));
        lines.push(json!({"k": "start", "th": 0, "ev": id, "cards": names(&h), "as": how}));
        lines.push(json!({"k": "finish", "th": 0, "out": ruler.full(&r)}));
    }
    BUSY[0].store(false, Relaxed);
    c.rep.note("recorded_events", lines.len());
    c.rep.add(lines.len() as u64 / 2);
    c.rep.sample(json!({"history_excerpt": lines.iter().skip(lines.len() / 2).take(3).collect::<Vec<_>>()}));
    write_lines(path, &lines);
}
pub fn write_lines(path: &str, lines: &[Value]) { std::fs::write(path, lines.iter().map(|l| l.to_string() + "\n").collect::<String>()).expect("cannot write the history") }


/// Sets of cards in families: members that a careless summary (a sum, a xor,
/// the ranks alone, some of the cards) cannot tell apart.
pub fn families(seed: u64, stream: u64, n: usize) -> Vec<Vec<usize>> {
    let mut rng = Rng::new(seed, 480_000 + stream);
    let mut v: Vec<Vec<usize>> = vec![];
    while v.len() < n {
        let k = match rng.below(40) { 0..=5 => 5, 6..=13 => 6, 14..=23 => 7, 24..=29 => 8, 30..=34 => 9, 35..=37 => 10, 38 => rng.range(11, 14), _ => rng.range(15, 20) };
        let mut d: Vec<usize> = (0..52).collect();
        rng.shuffle(&mut d);
        // often few suits or few ranks, so that the suits and ranks matter
        match rng.below(4) {
            0 => { let (a, b) = (rng.below(4), rng.below(4)); d.sort_by_key(|c| c % 4 != a && c % 4 != b); }
            1 => { let lo = rng.below(9); d.sort_by_key(|c| !(lo..lo + 5).contains(&(c / 4))); }
            _ => {}
        }
        let base: Vec<usize> = d[..k].to_vec();
        let members = if k > 10 { 2 } else { 7 };
        v.push(base.clone());
        for _ in 0..members {
            let mut h = base.clone();
            let (i, j) = (rng.below(k), rng.below(k));
            match rng.below(8) {
                0 | 1 => { let (a, b) = (h[i], h[j]); h[i] = a / 4 * 4 + b % 4; h[j] = b / 4 * 4 + a % 4; }          // suits exchanged
                2 => { let mut q: Vec<usize> = h.iter().map(|c| c % 4).collect(); rng.shuffle(&mut q); for (c, s) in h.iter_mut().zip(q) { *c = *c / 4 * 4 + s; } }
                3 => { let p = [[1, 0, 2, 3], [0, 2, 1, 3], [3, 1, 2, 0], [1, 2, 3, 0]][rng.below(4)]; for c in h.iter_mut() { *c = *c / 4 * 4 + p[*c % 4]; } }  // suits renamed
                4 => h[i] = rng.below(52),                                                                      // one card
                5 => h[i] = h[i] / 4 * 4 + rng.below(4),                                                       // one suit
                6 => { let (a, b) = (h[i] / 4, rng.below(13)); for c in h.iter_mut() { if *c / 4 == a { *c = 4 * b + *c % 4; } } }  // a rank
                _ => { if h[i] / 4 < 12 && h[j] / 4 > 0 { h[i] += 4; h[j] -= 4; } }                          // one up, one down
            }
            // a repeated card now and then stays: refused, and remembered by nothing
            if distinct(&h) || rng.chance(1, 12) { v.push(h); }
        }
    }
    v.truncate(n);
    v
}

/// The answers to the families, asked for in one of several orders; run in
/// a process of its own each, so that the histories share nothing.
pub fn answers(c: &Ctx, way: &str, n: usize, stream: u64, file: &str, keep: usize, trace: &str) {
    let inputs = families(c.seed, stream, n);
    let ruler = Ruler::new(c.l(), &Evaluator::new());
    let mut order: Vec<usize> = (0..inputs.len()).collect();
    match way { "forward" => {} "backward" => order.reverse(), _ => Rng::new(c.seed, 481_000 + stream).shuffle(&mut order) }
    let e = Evaluator::new();
    let id = match way { "forward" => 1, "backward" => 2, _ => 3 };
    let mut said = vec![String::new(); inputs.len()];
    let mut lines = vec![json!({"k": "make", "ev": id, "how": "new"})];
    BUSY[0].store(true, Relaxed);
    for i in order {
        if c.rep.stop() { break; }
        let h = &inputs[i];
        beat(0, i as u64);
        let cs = to_cards(h);
        let r: Res = guard(|| e.evaluate(&cs));
        let v = ruler.full(&r);
        said[i] = format!("{} -> {}", names(h).join(" "), v);
        // whole families are kept for TLC
        if i < keep { lines.push(json!({"k": "start", "th": 0, "ev": id, "cards": names(h)})); lines.push(json!({"k": "finish", "th": 0, "out": v})); }
    }
    BUSY[0].store(false, Relaxed);
    c.rep.add(inputs.len() as u64);
    std::fs::write(file, said.join("\n")).expect("cannot write the answers");
    write_lines(trace, &lines);
}
