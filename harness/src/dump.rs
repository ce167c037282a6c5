//! C24: everything a build of the library answers, written to files, so that
//! builds with different features can be compared.
use crate::calls::*;
use crate::histories::{distinct, pool, to_cards, Callee, Ruler};
use crate::table::*;
use crate::util::*;
use poker::{Card, Evaluator};
use serde_json::{json, Value};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

/// Strengths of all five-card hands (two bytes each, relative to the build's
/// own order) to FILE.hands, everything else as lines to FILE.lines.
pub fn write(c: &Ctx, file: &str, by: &str) {
    let e = Arc::new(Evaluator::new());
    #[allow(unused_mut)]
    let mut f: Callee = crate::histories::callee(e.clone());
    #[cfg(feature = "static")]
    if by == "static" { f = Arc::new(|cs: &[Card], how: &str| evaluate_static(cs, how)); }
    let _ = by;
    // the order is measured with the evaluator of the build
    let ruler = Ruler::new(c.l(), &e);
    let tops: Vec<usize> = (4..52).collect();
    let parts: Vec<std::sync::Mutex<Vec<u8>>> = tops.iter().map(|_| std::sync::Mutex::new(vec![])).collect();
    par(tops.len(), c.rep, |w, i| {
        let i = tops.len() - 1 - i;
        let mut v = vec![];
        each_hand5_top(tops[i], &mut |h| {
            beat(w, mask(h));
            let cs = h.map(card);
            let code: u16 = match guard(|| f(&cs, "slice")) { Ok(Ok(r)) => ruler.rank(&r) as u16, Ok(Err(_)) => 60000, Err(_) => 60001 };
            v.extend(code.to_le_bytes());
        });
        *parts[i].lock().unwrap() = v;
    });
    let bytes: Vec<u8> = parts.into_iter().flat_map(|p| p.into_inner().unwrap()).collect();
    std::fs::write(format!("{}.hands", file), &bytes).expect("cannot write the dump");
    let mut lines: Vec<Value> = vec![];
    BUSY[0].store(true, Relaxed);
    let mut rng = Rng::new(c.seed, 24);
    for s in 0..7462 {
        beat(0, s as u64);
        let h = c.l().hand(s, &mut rng);
        lines.push(json!({"step": s, "cards": names(&h), "got": ruler.full(&guard(|| f(&h.map(card), "array")))}));
    }
    let n = if c.thorough { 200_000 } else { 20_000 };
    for mut h in pool(c, &mut rng, n) {
        if rng.chance(1, 8) && !h.is_empty() { let x = h[rng.below(h.len())]; h.push(x); }
        if rng.chance(1, 200) { let k = rng.range(9, 16); let mut d: Vec<usize> = (0..52).collect(); rng.shuffle(&mut d); h = d[..k].to_vec(); }
        if rng.chance(1, 300) { h = (0..rng.below(80)).map(|_| rng.below(52)).collect(); if distinct(&h) && h.len() > 12 { h.truncate(9); } }
        let how = CONTAINERS[rng.below(CONTAINERS.len())];
        beat(0, mask(&h));
        let r: Res = guard(|| f(&to_cards(&h), how));
        let message = match &r { Ok(Err(e)) => { let mut w: Vec<String> = e.to_string().split(' ').map(String::from).collect(); w.sort(); w.join(" ") } _ => String::new() };
        lines.push(json!({"cards": names(&h), "as": how, "got": ruler.full(&r), "message_words": message}));
    }
    // the rest of the library, for builds without some feature
    let deck: Vec<Card> = poker::deck::generate().collect();
    lines.push(json!({"deck": names_of(&deck)}));
    for x in &deck { lines.push(json!({"card": name_of(*x), "text": x.rank_suit_string(), "printed": x.to_string(), "int": x.unique_integer(), "debug": format!("{:?}", x)})); }
    for a in "23456789TJQKAchsdtx1 é".chars() { for b in "chsdCHA2 é".chars() {
        let t: String = [a, b].iter().collect();
        lines.push(json!({"text": t, "parsed": parse_out(&t.parse()), "pair": parse_out(&Card::try_from_chars(a, b)), "message": t.parse::<Card>().err().map(|e| e.to_string())}));
    } }
    for t in ["", "A", "Asd", "é", "10h", "As Kd", "🂡🂡🂡"] { lines.push(json!({"text": t, "parsed": parse_out(&t.parse()), "message": t.parse::<Card>().err().map(|e| e.to_string())})); }
    lines.push(json!({"batch": poker::cards!("As Kd nope 2c").map(|r| parse_out(&r)).collect::<Vec<_>>(), "boxed": names_of(&poker::box_cards!(deck[..3], deck[50..]))}));
    for k in 0..60 {
        let d = || poker::deck::generate();
        let some: Vec<Card> = [d().nth(k), d().skip(k).last(), d().step_by(k + 1).nth(2), d().take(k).max()].into_iter().flatten().collect();
        let mut used = d();
        for _ in 0..k { used.next(); }
        let (hint, left) = (format!("{:?}", used.size_hint()), used.count());
        lines.push(json!({"deck_after": k, "cards": names_of(&some), "hint": hint, "left": left}));
        let texts: Vec<String> = (0..k % 9).map(|i| if (i + k) % 7 == 3 { "Xy".into() } else { name((5 * i + k) % 52) }).collect();
        let mut b = Card::parse_to_iter(&texts);
        let hint = b.size_hint();
        lines.push(json!({"texts": texts, "hint": format!("{:?}", hint), "second": b.nth(1).map(|r| parse_out(&r)), "rest": b.map(|r| parse_out(&r)).collect::<Vec<_>>(), "collected": format!("{:?}", Card::parse_to_iter(&texts).try_collect::<Vec<Card>>())}));
    }
    for _ in 0..2000 {
        let pair = [rng.below(7462), rng.below(7462)].map(|s| { let h = c.l().hand(s, &mut rng); (h, guard(|| f(&h.map(card), "slice"))) });
        if let [(a, Ok(Ok(x))), (b, Ok(Ok(y)))] = &pair {
            lines.push(json!({"a": names(a), "b": names(b), "compared": format!("{:?} {:?} {} {} {} {} {} {}", x.cmp(y), x.partial_cmp(y), x == y, x < y, x >= y, x.is_better_than(*y), x.is_worse_than(*y), x.is_equal_to(*y)), "classes": format!("{:?}", x.class().cmp(&y.class()))}));
        }
    }
    lines.push(json!({"best": poker::Eval::BEST.to_string(), "worst": poker::Eval::WORST.to_string(), "best_rank": ruler.rank(&poker::Eval::BEST), "worst_rank": ruler.rank(&poker::Eval::WORST)}));
    BUSY[0].store(false, Relaxed);
    c.rep.add(2_598_960 + lines.len() as u64);
    c.rep.sample(lines[lines.len() / 3].clone());
    c.rep.note("lines", lines.len());
    std::fs::write(format!("{}.lines", file), lines.iter().map(|l| l.to_string() + "\n").collect::<String>()).expect("cannot write the dump");
}
#[cfg(feature = "static")]
pub fn evaluate_static(cs: &[Card], how: &str) -> Result<poker::Eval, poker::EvalError> {
    use poker::evaluate::static_lookup::evaluate;
    match how {
        "vec" => evaluate(cs.to_vec()),
        "vecref" => evaluate(&cs.to_vec()),
        "box" => evaluate(cs.to_vec().into_boxed_slice()),
        "array" if cs.len() == 5 => evaluate([cs[0], cs[1], cs[2], cs[3], cs[4]]),
        "array" if cs.len() == 7 => evaluate([cs[0], cs[1], cs[2], cs[3], cs[4], cs[5], cs[6]]),
        "cow" => evaluate(std::borrow::Cow::Borrowed(cs)),
        "rc" => evaluate(std::rc::Rc::<[Card]>::from(cs)),
        "arc" => evaluate(Arc::<[Card]>::from(cs)),
        _ => evaluate(cs),
    }
}
