//! Sessions: executes calls of the PokerLib vocabulary on the library, either
//! replaying behaviours TLC generated (comparing results) or recording random
//! behaviours for TLC to validate.
use crate::calls::*;
use crate::table::*;
use crate::util::*;
use poker::{Card, Eval, EvalError, Evaluator, ParseCardError};
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn chars_text(v: &Value) -> String { v.as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect() }
pub fn ord_text(o: Ordering) -> &'static str {
    match o {
        Ordering::Less => "lt",
        Ordering::Equal => "eq",
        Ordering::Greater => "gt",
    }
}

type Item = Result<Card, ParseCardError>;
/// A batch parser of any source, with its operations behind closures (the
/// library's type cannot be named).
pub struct Batch {
    pub pulled: Rc<Cell<usize>>,
    /// how often the source was asked again after its end
    pub over: Rc<Cell<usize>>,
    pub next: Box<dyn FnMut() -> Option<Item>>,
    pub nth: Box<dyn FnMut(usize) -> Option<Item>>,
    pub hint: Box<dyn FnMut() -> (usize, Option<usize>)>,
    pub rest: Box<dyn FnMut(&str) -> Vec<Item>>,
    pub last: Box<dyn FnMut() -> Option<Item>>,
    pub count: Box<dyn FnMut() -> usize>,
    pub collect: Box<dyn FnMut() -> Result<Vec<Card>, ParseCardError>>,
    pub exact: bool,
}
/// A source that counts how often it says that there is nothing more.
struct Ends<I>(I, Rc<Cell<usize>>);
impl<I: Iterator> Iterator for Ends<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let r = self.0.next();
        if r.is_none() { self.1.set(self.1.get() + 1); }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
macro_rules! batch {
    ($src:expr, $pulled:expr, $exact:expr) => {{
        let pulled: Rc<Cell<usize>> = $pulled;
        let over = Rc::new(Cell::new(0));
        let p = Rc::new(RefCell::new(Some(Card::parse_to_iter($src(over.clone())))));
        let (p1, p2, p3, p4, p5, p6, p7) = (p.clone(), p.clone(), p.clone(), p.clone(), p.clone(), p.clone(), p);
        Batch {
            pulled,
            over,
            exact: $exact,
            next: Box::new(move || p1.borrow_mut().as_mut().and_then(|i| i.next())),
            nth: Box::new(move |n| p2.borrow_mut().as_mut().and_then(|i| i.nth(n))),
            hint: Box::new(move || p3.borrow().as_ref().map(|i| i.size_hint()).unwrap_or((0, Some(0)))),
            rest: Box::new(move |how| match p4.borrow_mut().take() {
                None => vec![],
                Some(mut i) => match how {
                    "for" => { let mut v = vec![]; for x in i { v.push(x) } v }
                    "foreach" => { let mut v = vec![]; i.for_each(|x| v.push(x)); v }
                    "fold" => i.fold(vec![], |mut v, x| { v.push(x); v }),
                    "byref" => i.by_ref().collect(),
                    "take" => { let mut v: Vec<Item> = i.by_ref().take(2).collect(); v.extend(i); v }
                    _ => i.collect(),
                },
            }),
            last: Box::new(move || p5.borrow_mut().take().and_then(|i| i.last())),
            count: Box::new(move || p6.borrow_mut().take().map(|i| i.count()).unwrap_or(0)),
            collect: Box::new(move || match p7.borrow_mut().take() { None => Ok(vec![]), Some(i) => i.try_collect::<Vec<Card>>() }),
        }
    }};
}
pub const SOURCES: [&str; 7] = ["vec", "slice", "filter", "strings", "chain", "stepby", "split"];
pub fn batch(src: &str, texts: Vec<String>) -> Batch {
    let pulled = Rc::new(Cell::new(0));
    let c = pulled.clone();
    let tick = move |_: &String| c.set(c.get() + 1);
    match src {
        "slice" => {
            // borrowed texts: leak them, sessions are short
            let l: &'static [String] = Box::leak(texts.into_boxed_slice());
            let c = pulled.clone();
            batch!(|o| Ends(l.iter().map(|s| s.as_str()).inspect(move |_| c.set(c.get() + 1)), o), pulled, true)
        }
        "filter" => batch!(|o| Ends(texts.into_iter().filter(|_| true).inspect(tick), o), pulled, false),
        "chain" => {
            let mut a = texts;
            let b = a.split_off(a.len() / 2);
            batch!(|_| a.into_iter().chain(b).inspect(tick), pulled, true)
        }
        "stepby" => {
            let v: Vec<String> = texts.iter().flat_map(|t| [t.clone(), "??".to_string()]).collect();
            batch!(|o| Ends(v.into_iter().step_by(2).inspect(tick), o), pulled, true)
        }
        "split" => {
            // an unsized-hint source
            let mut v = texts;
            v.reverse();
            batch!(|o| Ends(std::iter::from_fn(move || v.pop()).inspect(tick), o), pulled, false)
        }
        "strings" => batch!(|o| Ends(std::collections::VecDeque::from(texts).into_iter().inspect(tick), o), pulled, true),
        _ => batch!(|_| texts.into_iter().inspect(tick), pulled, true),
    }
}

#[derive(Default)]
pub struct State {
    pub evs: BTreeMap<i64, Evaluator>,
    pub evals: BTreeMap<i64, Eval>,
    pub iters: BTreeMap<i64, Batch>,
    pub decks: BTreeMap<i64, Option<Box<dyn Iterator<Item = Card>>>>,
}

fn id(e: &Value, k: &str) -> i64 { e[k].as_i64().unwrap_or_else(|| panic!("call without {}: {}", k, e)) }
fn cards_in(e: &Value, k: &str) -> Vec<Card> { e[k].as_array().unwrap().iter().map(|n| card(card_no(n.as_str().unwrap()))).collect() }
fn one_card(e: &Value, k: &str) -> Card { card(card_no(e[k].as_str().unwrap())) }
fn one_char(e: &Value, k: &str) -> char { e[k].as_str().unwrap().chars().next().unwrap() }
fn item(x: Option<Item>) -> Value { x.map(|r| parse_out(&r)).unwrap_or(json!({"t": "end"})) }
fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub const DUP_END: &str = "once: ";

/// Execute one call; the result as the specification writes it.
pub fn exec(st: &mut State, e: &Value) -> Value {
    match guard(std::panic::AssertUnwindSafe(|| exec_inner(st, e))) {
        Ok(v) => v,
        Err(p) => json!({"t": "panic", "msg": p}),
    }
}
fn exec_inner(st: &mut State, e: &Value) -> Value {
    let unit = || json!({"t": "unit"});
    let op = e["op"].as_str().unwrap();
    match op {
        "new" => { st.evs.insert(id(e, "id"), Evaluator::new()); unit() }
        "default" => { st.evs.insert(id(e, "id"), Evaluator::default()); unit() }
        "clone" => { let c = st.evs[&id(e, "from")].clone(); st.evs.insert(id(e, "id"), c); unit() }
        "drop" => { st.evs.remove(&id(e, "id")); unit() }
        "eqev" => { let (a, b) = (&st.evs[&id(e, "a")], &st.evs[&id(e, "b")]); json!({"t": "bool", "v": a == b && !(a != b)}) }
        "evaluate" | "describe" => eval_out(&evaluate_as(&st.evs[&id(e, "ev")], &cards_in(e, "cards"), e["as"].as_str().unwrap_or("slice"))),
        "keep" => {
            let r = evaluate_as(&st.evs[&id(e, "ev")], &cards_in(e, "cards"), e["as"].as_str().unwrap_or("slice"));
            if let Ok(v) = &r { st.evals.insert(id(e, "id"), *v); }
            eval_out(&r)
        }
        "cmp" => {
            let (a, b) = (st.evals[&id(e, "a")], st.evals[&id(e, "b")]);
            let v = a.cmp(&b);
            json!({"t": "cmp", "v": ord_text(v), "partial": a.partial_cmp(&b).map(ord_text).unwrap_or("none"),
                   "lt": a < b, "le": a <= b, "eq": a == b, "ne": a != b, "ge": a >= b, "gt": a > b,
                   "better": a.is_better_than(b), "worse": a.is_worse_than(b), "equal": a.is_equal_to(b),
                   "maxv": ord_text(a.max(b).cmp(&a)), "minv": ord_text(a.min(b).cmp(&a)),
                   "hashok": v != Ordering::Equal || hash_of(&a) == hash_of(&b)})
        }
        "bound" => { let a = st.evals[&id(e, "a")]; json!({"t": "bound", "best": ord_text(a.cmp(&Eval::BEST)), "worst": ord_text(a.cmp(&Eval::WORST))}) }
        "classcmp" => {
            let (a, b) = (st.evals[&id(e, "a")], st.evals[&id(e, "b")]);
            json!({"t": "classcmp", "a": class_out(a.class()), "b": class_out(b.class()), "v": ord_text(a.class().cmp(&b.class())), "eval": ord_text(a.cmp(&b))})
        }
        "sort" => {
            let mut v: Vec<i64> = e["ids"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
            let ev = &st.evals;
            match e["how"].as_str().unwrap_or("cmp") {
                "key" => v.sort_by_key(|k| ev[k]),
                "unstable" => v.sort_unstable_by(|a, b| ev[a].partial_cmp(&ev[b]).unwrap()),
                "reverse" => { v.sort_by_key(|k| std::cmp::Reverse(ev[k])); v.reverse() }
                _ => v.sort_by(|a, b| ev[a].cmp(&ev[b])),
            }
            json!({"t": "ids", "ids": v})
        }
        "parse" => parse_out(&chars_text(&e["chars"]).parse::<Card>()),
        "accept" => match chars_text(&e["chars"]).parse::<Card>() { Ok(c) => json!({"t": "card", "card": name_of(c)}), Err(_) => json!({"t": "refused"}) },
        "chars" => parse_out(&Card::try_from_chars(one_char(e, "a"), one_char(e, "b"))),
        "acceptchars" => match Card::try_from_chars(one_char(e, "a"), one_char(e, "b")) { Ok(c) => json!({"t": "card", "card": name_of(c)}), Err(_) => json!({"t": "refused"}) },
        "perr" => match chars_text(&e["chars"]).parse::<Card>() { Ok(c) => json!({"t": "card", "card": name_of(c)}), Err(x) => json!({"t": "msg", "text": x.to_string()}) },
        "text" => {
            let c = one_card(e, "card");
            json!({"t": "text", "text": c.rank_suit_string(), "display": c.to_string(), "rank": RANK_VARIANTS[rank_no(c.rank())],
                   "suit": SUIT_VARIANTS[suit_no(c.suit())], "int": c.unique_integer().to_string()})
        }
        "cardcmp" => { let (a, b) = (one_card(e, "a"), one_card(e, "b")); json!({"t": "cardcmp", "v": ord_text(a.cmp(&b)), "same": a == b}) }
        "serr" => {
            let n = id(e, "n") as usize;
            let cs: Vec<Card> = (0..n).map(|i| card((i * 17 + 5) % 52)).collect();
            match Evaluator::new().evaluate(&cs) { Ok(_) => json!({"t": "ok"}), Err(x) => json!({"t": "msg", "text": x.to_string()}) }
        }
        "derr" => match Evaluator::new().evaluate(cards_in(e, "cards")) {
            Ok(_) => json!({"t": "ok"}),
            Err(x) => {
                let m = x.to_string();
                match m.find(DUP_END) {
                    Some(i) => { let (p, w) = m.split_at(i + DUP_END.len()); json!({"t": "dupmsg", "prefix": p, "words": if w.is_empty() { vec![] } else { w.split(' ').collect::<Vec<_>>() }}) }
                    None => json!({"t": "dupmsg", "prefix": m, "words": []}),
                }
            }
        },
        "iter" => {
            let texts = e["strs"].as_array().unwrap().iter().map(chars_text).collect();
            st.iters.insert(id(e, "id"), batch(e["src"].as_str().unwrap_or("vec"), texts));
            unit()
        }
        "next" | "nth" | "last" | "count" | "collect" | "rest" => {
            // what any of them may do to its source: ask until it ends, and not again
            let before = st.iters[&id(e, "id")].over.get();
            let mut v = take(st, e, op);
            let asked = st.iters[&id(e, "id")].over.get() - before;
            // collecting through an adaptor and then the rest are two calls
            v["overasked"] = (asked > if e["how"] == "take" && op == "rest" { 2 } else { 1 }).into();
            v
        }
        "hint" => { let b = st.iters.get_mut(&id(e, "id")).unwrap(); let (lo, hi) = (b.hint)(); json!({"t": "hint", "lo": lo, "hi": hi.map(|x| x as i64).unwrap_or(-1)}) }
        "deck" => { st.decks.insert(id(e, "id"), Some(Box::new(poker::deck::generate()))); unit() }
        "dnext" | "dnth" => {
            let c = match st.decks.get_mut(&id(e, "id")).unwrap() { None => None, Some(d) => if op == "dnext" { d.next() } else { d.nth(id(e, "n") as usize) } };
            c.map(|c| json!({"t": "card", "card": name_of(c)})).unwrap_or(json!({"t": "end"}))
        }
        "drest" => {
            let v: Vec<Card> = match st.decks.get_mut(&id(e, "id")).unwrap().take() { None => vec![], Some(d) => d.collect() };
            json!({"t": "cards", "cards": names_of(&v)})
        }
        "dcount" => json!({"t": "n", "v": st.decks.get_mut(&id(e, "id")).unwrap().take().map(|d| d.count()).unwrap_or(0)}),
        "dhint" => { let (lo, hi) = st.decks[&id(e, "id")].as_ref().map(|d| d.size_hint()).unwrap_or((0, Some(0))); json!({"t": "hint", "lo": lo.min(1 << 30), "hi": hi.map(|x| x.min(1 << 30) as i64).unwrap_or(-1)}) }
        "shuffle" => {
            // gen: "seed/k" - the k-th shuffle from the generator seeded so
            let g = e["gen"].as_str().unwrap();
            let (seed, k) = g.split_once('/').unwrap();
            let mut rng = StdRng::seed_from_u64(seed.parse().unwrap());
            let mut v = vec![];
            for _ in 0..=k.parse::<usize>().unwrap() { v = poker::deck::shuffled_with(&mut rng); }
            json!({"t": "cards", "cards": names_of(&v)})
        }
        "box" => {
            let l: Vec<Vec<Card>> = e["lists"].as_array().unwrap().iter().map(|q| q.as_array().unwrap().iter().map(|n| card(card_no(n.as_str().unwrap()))).collect()).collect();
            json!({"t": "cards", "cards": names_of(&join(&l))})
        }
        "show" => {
            let board = cards_in(e, "board");
            let hands: Vec<Vec<Card>> = e["hands"].as_array().unwrap().iter().map(|q| q.as_array().unwrap().iter().map(|n| card(card_no(n.as_str().unwrap()))).collect()).collect();
            match showdown(&board, &hands, e["via"].as_str().unwrap_or("max")) {
                Err(x) => eval_out(&Err(x)),
                Ok((who, best)) => json!({"t": "winners", "who": who.iter().map(|i| i + 1).collect::<Vec<_>>(), "name": best.to_string()}),
            }
        }
        _ => panic!("unknown call {}", op),
    }
}

fn take(st: &mut State, e: &Value, op: &str) -> Value {
    match op {
        "next" | "nth" => {
            let b = st.iters.get_mut(&id(e, "id")).unwrap();
            let before = b.pulled.get();
            let r = if op == "next" { (b.next)() } else { (b.nth)(id(e, "n") as usize) };
            let got = r.is_some();
            let mut v = item(r);
            if got { v["pulled"] = (b.pulled.get() - before).into(); }
            v
        }
        "rest" => { let b = st.iters.get_mut(&id(e, "id")).unwrap(); json!({"t": "list", "v": (b.rest)(e["how"].as_str().unwrap_or("")).iter().map(parse_out).collect::<Vec<_>>()}) }
        "last" => item((st.iters.get_mut(&id(e, "id")).unwrap().last)()),
        "count" => json!({"t": "n", "v": (st.iters.get_mut(&id(e, "id")).unwrap().count)()}),
        "collect" => match (st.iters.get_mut(&id(e, "id")).unwrap().collect)() {
            Ok(v) => json!({"t": "cards", "cards": names_of(&v)}),
            Err(x) => parse_out(&Err(x)),
        },
        _ => unreachable!(),
    }
}

pub fn join(l: &[Vec<Card>]) -> Vec<Card> {
    use poker::box_cards;
    match l.len() {
        2 => box_cards!(l[0], l[1]),
        3 => box_cards!(l[0], &l[1], l[2]),
        4 => box_cards!(l[0], l[1], l[2].as_slice(), l[3]),
        5 => box_cards!(l[0], l[1], l[2], l[3], l[4],),
        6 => box_cards!(l[0], l[1], l[2], l[3], l[4], l[5]),
        7 => box_cards!(l[0], l[1], l[2], l[3], l[4], l[5], l[6]),
        8 => box_cards!(l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7]),
        9 => box_cards!(l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8]),
        12 => box_cards!(l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11]),
        16 => box_cards!(l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15]),
        20 => box_cards!(l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19]),
        n => panic!("no form for {} slices", n),
    }
    .to_vec()
}

/// Winners of a table, found in one of the ways a user may choose.
pub fn showdown(board: &[Card], hands: &[Vec<Card>], via: &str) -> Result<(Vec<usize>, Eval), EvalError> {
    let ev = Evaluator::new();
    showdown_on(&ev, board, hands, via)
}
pub fn showdown_on(ev: &Evaluator, board: &[Card], hands: &[Vec<Card>], via: &str) -> Result<(Vec<usize>, Eval), EvalError> {
    let mut scores = vec![];
    for (i, h) in hands.iter().enumerate() {
        scores.push(if i % 2 == 0 { ev.evaluate(poker::box_cards!(h, board))? } else { ev.evaluate(poker::box_cards!(board, h))? });
    }
    Ok(match via {
        "sort" => {
            let mut ix: Vec<usize> = (0..scores.len()).collect();
            ix.sort_by(|a, b| scores[*b].cmp(&scores[*a]));
            let top = scores[ix[0]];
            let mut w: Vec<usize> = ix.into_iter().take_while(|i| scores[*i] == top).collect();
            w.sort();
            (w, top)
        }
        "pairs" => {
            let w: Vec<usize> = (0..scores.len()).filter(|&i| scores.iter().all(|o| !o.is_better_than(scores[i]))).collect();
            let b = *w.first().map(|i| &scores[*i]).unwrap_or(&Eval::WORST);
            (w, b)
        }
        "running" => {
            let mut best = Eval::WORST;
            let mut w: Vec<usize> = vec![];
            for (i, s) in scores.iter().enumerate() {
                if s.is_better_than(best) { best = *s; w = vec![i]; } else if s.is_equal_to(best) { w.push(i); }
            }
            (w, best)
        }
        _ => {
            let top = *scores.iter().max().unwrap();
            ((0..scores.len()).filter(|&i| scores[i] == top).collect(), top)
        }
    })
}

/// The fields of a result that bear on a property; others are not observed.
pub fn relevant(prop: &str, op: &str, out: Value) -> Value {
    let keep: &[&str] = match (prop, op) {
        ("C01", _) | ("C03", "evaluate" | "keep") | ("C02", "keep") => &["class", "r1", "r2", "cards", "n"],
        ("C02" | "C03", "cmp") => &["v"],
        ("C05", _) => &["cards", "n"],
        ("C06" | "C07", "keep") => &[],
        ("C06", _) => return out,
        ("C07", "describe") => &["class", "r1", "r2", "preds", "royal"],
        ("C08", "describe") => &["class", "r1", "r2", "name", "cname"],
        ("C09", "text") => &["rank", "suit", "int"],
        ("C10", "text") => &["text", "display"],
        ("C22", "evaluate" | "keep") => &[],
        ("C23", "show") => &["who"],
        _ => return out,
    };
    match out {
        Value::Object(m) => Value::Object(m.into_iter().filter(|(k, _)| k == "t" || k == "msg" || keep.contains(&k.as_str())).collect()),
        v => v,
    }
}
/// Which calls of a generated behaviour bear on a property.
fn bears_on(prop: &str, op: &str) -> bool {
    match op {
        "new" | "default" | "clone" | "drop" => matches!(prop, "C04" | "C22"),
        "evaluate" | "keep" => matches!(prop, "C01" | "C02" | "C03" | "C05" | "C06" | "C07" | "C08"),
        "eqev" => prop == "C22",
        "cmp" => matches!(prop, "C02" | "C03" | "C06"),
        "bound" => prop == "C06",
        "parse" | "chars" => matches!(prop, "C10" | "C11"),
        "perr" => prop == "C11",
        "text" => matches!(prop, "C09" | "C10"),
        "cardcmp" => prop == "C09",
        "serr" => prop == "C15",
        "box" => prop == "C16",
        "next" | "nth" | "rest" | "last" | "count" | "collect" => prop == "C12",
        "show" => prop == "C23",
        _ => false,
    }
}

/// Replay behaviours generated from the specification.
pub fn replay(c: &Ctx, prop: &str, files: &[String]) {
    let mut calls = 0u64;
    let mut by_op: BTreeMap<String, u64> = BTreeMap::new();
    BUSY[0].store(true, std::sync::atomic::Ordering::Relaxed);
    for f in files {
        let mut st = State::default();
        for (i, line) in std::fs::read_to_string(f).expect("cannot read a behaviour").lines().enumerate() {
            let e: Value = serde_json::from_str(line).expect("bad behaviour line");
            let op = e["op"].as_str().unwrap().to_string();
            beat(0, i as u64);
            if e["op"] == "cmp" || e["op"] == "bound" {
                // an evaluation that could not be kept was reported already
                if !st.evals.contains_key(&id(&e, "a")) || e.get("b").map(|b| !st.evals.contains_key(&b.as_i64().unwrap())).unwrap_or(false) { continue; }
            }
            // C02 is about hands of five cards
            if prop == "C02" && op == "keep" && e["cards"].as_array().unwrap().len() != 5 {
                st.evals.remove(&id(&e, "id"));
                continue;
            }
            // C10 sees only whether a text is accepted
            let mut want = e["out"].clone();
            let mut got = exec(&mut st, &e);
            if prop == "C10" && (op == "parse" || op == "chars") {
                for v in [&mut want, &mut got] { if v["t"] != "card" && v["t"] != "panic" { *v = json!({"t": "refused"}); } }
            }
            if !bears_on(prop, &op) { continue; }
            if prop == "C01" && e["cards"].as_array().map(|a| a.len() != 5).unwrap_or(false) { continue; }
            if prop == "C02" && op == "keep" { continue; }
            let is_ok = |v: &Value| v["t"] == "ok";
            if prop == "C02" && op == "evaluate" { continue; }
            if matches!(prop, "C07" | "C08") && (op == "evaluate" || op == "keep") {
                // consistency of the result with its own class
                if is_ok(&got) {
                    calls += 1;
                    describes(c, prop, &e, &got);
                }
                continue;
            }
            if matches!(prop, "C01" | "C03" | "C08") && (op == "evaluate") && !is_ok(&want) { continue; }
            let got = relevant(prop, &op, got);
            calls += 1;
            *by_op.entry(op).or_default() += 1;
            let ok = got.as_object().unwrap().iter().all(|(k, v)| want.get(k) == Some(v));
            if calls % 997 == 1 { c.rep.sample(json!({"replayed": e, "got": got})); }
            c.rep.check(ok, || json!({"what": "a behaviour of the specification is not reproduced", "behaviour": f.rsplit('/').next(), "call_number": i + 1, "call": e, "got": got, "expected": want}));
        }
    }
    BUSY[0].store(false, std::sync::atomic::Ordering::Relaxed);
    c.rep.note("replayed_behaviours", files.len());
    c.rep.note("replayed_calls", calls);
    c.rep.note("replayed_by_op", json!(by_op));
}
fn describes(c: &Ctx, prop: &str, e: &Value, got: &Value) {
    if prop == "C07" {
        let k = CLASS_NAMES.iter().position(|n| got["class"] == *n).unwrap();
        let ok = (0..9).all(|i| got["preds"][i] == (i == k)) && got["royal"] == (k == 8 && got["r1"] == "Ace");
        c.rep.check(ok, || json!({"what": "predicates do not match the class", "call": e, "got": got}));
    } else {
        c.rep.check(got["name"] == got["cname"], || json!({"what": "an evaluation and its class print differently", "call": e, "got": got}));
    }
}

// ---------------------------------------------------------------------------
// Recording
// ---------------------------------------------------------------------------
pub struct Recorder<'a> {
    pub c: &'a Ctx,
    pub prop: &'a str,
    pub st: State,
    pub lines: Vec<String>,
    pub rng: Rng,
}
impl<'a> Recorder<'a> {
    pub fn new(c: &'a Ctx, prop: &'a str, stream: u64) -> Self { Recorder { c, prop, st: State::default(), lines: vec![], rng: Rng::new(c.seed, stream) } }
    pub fn call(&mut self, mut e: Value) -> Value {
        let op = e["op"].as_str().unwrap().to_string();
        beat(0, self.lines.len() as u64);
        let out = exec(&mut self.st, &e);
        e["out"] = relevant(self.prop, &op, out.clone());
        self.lines.push(e.to_string());
        out
    }
    pub fn write(&self, path: &str) { std::fs::write(path, self.lines.join("\n") + "\n").expect("cannot write the trace") }
    /// a hand of n distinct cards from a pool that favours made hands
    pub fn hand(&mut self, n: usize) -> Vec<usize> {
        let pool: Vec<usize> = match self.rng.below(7) {
            0 => (0..52).collect(),
            1 => { let s = self.rng.below(4); (0..13).map(|r| 4 * r + s).collect() }
            2 | 3 => { let k = 2 + self.rng.below(3); let mut r: Vec<usize> = (0..13).collect(); self.rng.shuffle(&mut r); r[..k].iter().flat_map(|r| (0..4).map(move |s| 4 * r + s)).collect() }
            4 => { let h = 3 + self.rng.below(10); let rs: Vec<usize> = if h == 3 { vec![0, 1, 2, 3, 12] } else { (h - 4..=h).collect() }; rs.iter().flat_map(|r| (0..4).map(move |s| 4 * r + s)).collect() }
            5 => { let h = 3 + self.rng.below(10); let s = self.rng.below(4); let rs: Vec<usize> = if h == 3 { vec![0, 1, 2, 3, 12] } else { (h - 4..=h).collect() }; rs.iter().map(|r| 4 * r + s).collect() }
            _ => (0..52).collect(),
        };
        let mut p = pool;
        self.rng.shuffle(&mut p);
        p.truncate(n);
        while p.len() < n {
            let x = self.rng.below(52);
            if !p.contains(&x) { p.push(x); }
        }
        self.rng.shuffle(&mut p);
        p
    }
    fn step_hand(&mut self) -> Vec<usize> {
        let s = if self.rng.chance(1, 3) { 7461 - self.rng.below(400) } else { self.rng.below(7462) };
        let mut r = Rng::new(self.rng.next(), 3);
        self.c.l().hand(s, &mut r).to_vec()
    }
    fn how(&mut self) -> &'static str { CONTAINERS[self.rng.below(CONTAINERS.len())] }
    fn bad_input(&mut self) -> Vec<usize> {
        let n = self.rng.below(9);
        let mut h = self.hand(n);
        match self.rng.below(5) {
            0 => h.truncate(4),
            1 | 2 if !h.is_empty() => { let x = h[self.rng.below(h.len())]; let p = self.rng.below(h.len() + 1); h.insert(p, x); }
            3 => { let k = h.clone(); h.extend(k); }
            _ => h.truncate(self.rng.below(5)),
        }
        h
    }
    pub fn text(&mut self) -> Vec<String> {
        const ODD: [&str; 26] = ["t", "j", "q", "k", "a", "1", "0", "C", "D", "H", "S", "x", " ", "é", "♣", "♠", "Τ", "с", "２", "-", "Z", "\t", "\u{0}", "🂡", "\u{301}", "К"];
        let one = |r: &mut Rng| -> String {
            match r.below(12) {
                0..=4 => RANK_CHARS[r.below(13)].to_string(),
                5..=8 => SUIT_CHARS[r.below(4)].to_string(),
                _ => ODD[r.below(ODD.len())].to_string(),
            }
        };
        let r = &mut self.rng;
        match r.below(9) {
            0..=2 => vec![RANK_CHARS[r.below(13)].to_string(), SUIT_CHARS[r.below(4)].to_string()],
            3 | 4 => vec![one(r), one(r)],
            5 => vec![RANK_CHARS[r.below(13)].to_string(), ODD[r.below(ODD.len())].to_string()],
            6 => vec![ODD[r.below(ODD.len())].to_string(), SUIT_CHARS[r.below(4)].to_string()],
            7 => { let n = [0, 1, 3, 4, 7][r.below(5)]; (0..n).map(|_| one(r)).collect() }
            _ => { let x = one(r); let mut v = vec![RANK_CHARS[r.below(13)].to_string(), SUIT_CHARS[r.below(4)].to_string()]; v.insert(r.below(3), x); v }
        }
    }
}

/// Record a random session of `n` calls that bears on `prop`.
pub fn record(c: &Ctx, prop: &str, n: usize, stream: u64, path: &str) -> usize {
    BUSY[0].store(true, std::sync::atomic::Ordering::Relaxed);
    let mut r = Recorder::new(c, prop, 900_000 + stream);
    let mut kept: Vec<i64> = vec![];
    let eval_like = matches!(prop, "C01" | "C02" | "C03" | "C05" | "C06" | "C07" | "C08");
    if eval_like {
        r.call(json!({"op": "new", "id": 1}));
        r.call(json!({"op": "new", "id": 2}));
    }
    while r.lines.len() < n && !r.c.rep.stop() {
        if r.lines.len() > 4 * n { break; }
        let ev = if eval_like { 1 + r.rng.below(2) as i64 } else { 0 };
        let how = r.how();
        match prop {
            "C01" => {
                let h = if r.rng.chance(1, 2) { r.step_hand() } else { r.hand(5) };
                r.call(json!({"op": "evaluate", "ev": ev, "as": how, "cards": names(&h)}));
            }
            "C05" => {
                let h = if r.rng.chance(1, 4) { let k = r.rng.range(5, 9); r.hand(k) } else { r.bad_input() };
                r.call(json!({"op": "evaluate", "ev": ev, "as": how, "cards": names(&h)}));
            }
            "C02" | "C03" | "C06" | "C07" => {
                let slot = 1 + r.rng.below(40) as i64;
                let h = match prop {
                    "C02" | "C07" => if r.rng.chance(1, 2) { r.step_hand() } else { r.hand(5) },
                    "C03" => { let k = r.rng.range(6, 10); r.hand(k) }
                    _ => { let k = r.rng.range(5, 8); r.hand(k) }
                };
                if prop == "C07" { r.call(json!({"op": "describe", "ev": ev, "as": how, "cards": names(&h)})); }
                let o = r.call(json!({"op": "keep", "ev": ev, "as": how, "id": slot, "cards": names(&h)}));
                if o["t"] == "ok" && !kept.contains(&slot) { kept.push(slot); }
                if prop == "C03" && h.len() == 6 {
                    // one of its subsets, kept and compared
                    let mut sub = h.clone();
                    sub.remove(r.rng.below(6));
                    let s2 = 50 + slot;
                    let o = r.call(json!({"op": "keep", "ev": ev, "as": how, "id": s2, "cards": names(&sub)}));
                    if o["t"] == "ok" {
                        if !kept.contains(&s2) { kept.push(s2); }
                        if kept.contains(&slot) { r.call(json!({"op": "cmp", "a": slot, "b": s2})); }
                    }
                }
                if kept.len() > 1 {
                    for _ in 0..3 {
                        let (a, b) = (*r.rng.pick(&kept), *r.rng.pick(&kept));
                        r.call(json!({"op": if prop == "C07" { "classcmp" } else { "cmp" }, "a": a, "b": b}));
                    }
                    if prop == "C06" { let a = *r.rng.pick(&kept); r.call(json!({"op": "bound", "a": a})); }
                    if prop != "C07" && r.rng.chance(1, 12) {
                        let mut ids = kept.clone();
                        r.rng.shuffle(&mut ids);
                        ids.truncate(12);
                        let how = ["cmp", "key", "unstable", "reverse"][r.rng.below(4)];
                        r.call(json!({"op": "sort", "how": how, "ids": ids}));
                    }
                }
            }
            "C08" => {
                let h = match r.rng.below(4) { 0 => { let k = r.rng.range(6, 8); r.hand(k) } 1 => r.hand(5), _ => r.step_hand() };
                r.call(json!({"op": "describe", "ev": ev, "as": how, "cards": names(&h)}));
            }
            "C09" => {
                let (a, b) = (r.rng.below(52), r.rng.below(52));
                r.call(json!({"op": "text", "card": name(a)}));
                let b = if r.rng.chance(1, 5) { 4 * (a / 4) + b % 4 } else { b };
                r.call(json!({"op": "cardcmp", "a": name(a), "b": name(b)}));
            }
            "C10" => {
                let t = r.text();
                if t.len() == 2 { r.call(json!({"op": "acceptchars", "a": t[0], "b": t[1]})); }
                r.call(json!({"op": "accept", "chars": t}));
                if r.rng.chance(1, 4) { let a = r.rng.below(52); r.call(json!({"op": "text", "card": name(a)})); }
            }
            "C11" => {
                let t = r.text();
                if t.len() == 2 { r.call(json!({"op": "chars", "a": t[0], "b": t[1]})); }
                let o = r.call(json!({"op": "parse", "chars": t}));
                if o["t"] != "card" { r.call(json!({"op": "perr", "chars": t})); }
            }
            "C12" => {
                let k = 1 + r.rng.below(3) as i64;
                let fresh = !r.st.iters.contains_key(&k);
                match if fresh { 0 } else { r.rng.below(9) } {
                    0 => {
                        let m = r.rng.below(10);
                        let good = r.rng.chance(1, 3);
                        let strs: Vec<Vec<String>> = (0..m).map(|_| if good { let x = r.rng.below(52); name(x).chars().map(|c| c.to_string()).collect() } else { r.text() }).collect();
                        let src = SOURCES[r.rng.below(SOURCES.len())];
                        r.call(json!({"op": "iter", "id": k, "src": src, "strs": strs}));
                    }
                    1..=3 => { r.call(json!({"op": "next", "id": k})); }
                    4 => { let m = r.rng.below(4); r.call(json!({"op": "nth", "id": k, "n": m})); }
                    5 | 6 => { let exact = r.st.iters[&k].exact; r.call(json!({"op": "hint", "id": k, "exact": exact})); }
                    _ => {
                        let how = ["collect", "for", "foreach", "fold", "byref", "take"][r.rng.below(6)];
                        let op = ["rest", "rest", "last", "count", "collect", "collect"][r.rng.below(6)];
                        r.call(json!({"op": op, "id": k, "how": how}));
                    }
                }
            }
            "C13" => {
                let k = 1 + r.rng.below(4) as i64;
                let fresh = !r.st.decks.contains_key(&k);
                match if fresh { 0 } else { r.rng.below(24) } {
                    0 => { r.call(json!({"op": "deck", "id": k})); }
                    1 => { r.call(json!({"op": "drest", "id": k})); }
                    2 => { r.call(json!({"op": "dcount", "id": k})); }
                    3 | 4 => { r.call(json!({"op": "dhint", "id": k})); }
                    5..=7 => { let m = [0, 1, 2, 5, 12, 30][r.rng.below(6)]; r.call(json!({"op": "dnth", "id": k, "n": m})); }
                    _ => { r.call(json!({"op": "dnext", "id": k})); }
                }
            }
            "C14" => {
                let g = format!("{}/{}", r.rng.below(12), r.rng.below(4));
                r.call(json!({"op": "shuffle", "gen": g}));
            }
            "C15" => {
                let m = r.rng.below(5);
                r.call(json!({"op": "serr", "n": m}));
                let mut h = r.bad_input();
                if h.len() == { let mut s = h.clone(); s.sort(); s.dedup(); s.len() } { let x = r.rng.below(52); h.push(x); h.push(x); }
                if r.rng.chance(1, 3) { let k = h.clone(); h.extend(k.iter().take(3)); r.rng.shuffle(&mut h); }
                r.call(json!({"op": "derr", "cards": names(&h)}));
            }
            "C16" => {
                let m = r.rng.range(2, 8);
                let lists: Vec<Vec<String>> = (0..m).map(|_| { let k = r.rng.below(7); names(&r.hand(k)) }).collect();
                r.call(json!({"op": "box", "lists": lists}));
            }
            "C23" => {
                let b = r.rng.range(3, 5);
                let p = r.rng.range(2, 10);
                let pool = r.hand(2 * p + b);
                let hands: Vec<Vec<String>> = (0..p).map(|i| names(&pool[2 * i..2 * i + 2])).collect();
                let via = ["max", "sort", "pairs", "running"][r.rng.below(4)];
                r.call(json!({"op": "show", "via": via, "board": names(&pool[2 * p..]), "hands": hands}));
            }
            _ => panic!("no session profile for {}", prop),
        }
    }
    BUSY[0].store(false, std::sync::atomic::Ordering::Relaxed);
    r.write(path);
    r.c.rep.note("recorded_calls", r.lines.len());
    r.c.rep.sample(serde_json::from_str::<Value>(&r.lines[r.lines.len() / 2]).unwrap());
    r.lines.len()
}
