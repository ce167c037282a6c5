//! C23: whole tables played through the library, against the ladder.
use crate::calls::*;
use crate::session::showdown_on;
use crate::table::*;
use crate::util::*;
use poker::{Card, Eval, Evaluator};
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde_json::json;
use std::collections::{BTreeMap, BinaryHeap, HashMap};

/// The winners in every way a user may look for them.
fn ways(ev: &Evaluator, board: &[Card], hands: &[Vec<Card>]) -> Vec<(&'static str, Result<Vec<usize>, String>)> {
    let mut v: Vec<(&'static str, Result<Vec<usize>, String>)> = vec![];
    for via in ["max", "sort", "pairs", "running"] {
        v.push((via, match guard(|| showdown_on(ev, board, hands, via)) {
            Ok(Ok((w, _))) => Ok(w),
            Ok(Err(e)) => Err(e.to_string()),
            Err(p) => Err(format!("panic: {}", p)),
        }));
    }
    let scores = guard(|| hands.iter().map(|h| ev.evaluate(poker::box_cards!(board, h))).collect::<Result<Vec<Eval>, _>>());
    let scores = match scores { Ok(Ok(s)) => s, Ok(Err(e)) => { v.push(("scores", Err(e.to_string()))); return v } Err(p) => { v.push(("scores", Err(p))); return v } };
    let mut more = |name: &'static str, f: &dyn Fn() -> Vec<usize>| v.push((name, guard(f)));
    let n = scores.len();
    more("btree", &|| { let mut m: BTreeMap<Eval, Vec<usize>> = BTreeMap::new(); for i in 0..n { m.entry(scores[i]).or_default().push(i); } m.into_iter().next_back().unwrap().1 });
    more("hash", &|| { let mut m: HashMap<Eval, Vec<usize>> = HashMap::new(); for i in 0..n { m.entry(scores[i]).or_default().push(i); } let t = *m.keys().max().unwrap(); m.remove(&t).unwrap() });
    more("heap", &|| { let mut h: BinaryHeap<(Eval, std::cmp::Reverse<usize>)> = (0..n).map(|i| (scores[i], std::cmp::Reverse(i))).collect(); let mut w = vec![]; let mut top: Option<Eval> = None;
        while let Some((s, std::cmp::Reverse(i))) = h.pop() { if top.map(|t| t != s).unwrap_or(false) { break; } top = Some(s); w.push(i); } w.sort(); w });
    more("max_by", &|| { let t = *scores.iter().max_by(|a, b| a.partial_cmp(b).unwrap()).unwrap(); (0..n).filter(|&i| scores[i] >= t).collect() });
    more("reduce", &|| { let t = scores.iter().copied().reduce(|a, b| if b > a { b } else { a }).unwrap(); (0..n).filter(|&i| scores[i].is_equal_to(t)).collect() });
    more("not_worse", &|| (0..n).filter(|&i| scores.iter().all(|o| !scores[i].is_worse_than(*o))).collect());
    more("reverse", &|| { let mut ix: Vec<usize> = (0..n).collect(); ix.sort_by_key(|&i| std::cmp::Reverse(scores[i])); let t = scores[ix[0]]; let mut w: Vec<usize> = ix.into_iter().filter(|&i| scores[i] == t).collect(); w.sort(); w });
    more("min", &|| { let t = scores.iter().map(|s| std::cmp::Reverse(*s)).min().unwrap().0; (0..n).filter(|&i| !(scores[i] < t)).collect() });
    v
}

pub fn c23(c: &Ctx) {
    let ix = Index::new(c.l());
    let per = if c.thorough { 12_000 } else { 1_200 };
    let items = 64;
    let tallies: std::sync::Mutex<BTreeMap<usize, u64>> = Default::default();
    par(items, c.rep, |w, item| {
        let mut rng = Rng::new(c.seed, 230_000 + item as u64);
        let ev = if item % 2 == 0 { Evaluator::new() } else { Evaluator::default() };
        let mut mine: BTreeMap<usize, u64> = BTreeMap::new();
        for t in 0..per {
            if c.rep.stop() { break; }
            beat(w, (item * per + t) as u64);
            let b = rng.range(3, 5);
            // two cards each, sometimes another number
            let own = if rng.chance(1, 6) { rng.range(5 - b.min(4), 7) } else { 2 };
            let most = (52 - b) / own;
            let least = if rng.chance(1, 20) { 1 } else { 2 };
            let players = if rng.chance(1, 10) { rng.range(most / 2, most) } else { rng.range(least, most.min(10)) };
            // the deck: shuffled by the library, or stacked by us
            let stacked = rng.chance(1, 2);
            let deck: Vec<Card> = if !stacked {
                match guard(|| poker::deck::shuffled_with(&mut StdRng::seed_from_u64(rng.next())).to_vec()) {
                    Ok(d) => d,
                    Err(p) => { c.rep.violation(json!({"what": "shuffling panicked", "panic": p})); break; }
                }
            } else {
                let mut d: Vec<usize> = (0..52).collect();
                rng.shuffle(&mut d);
                // boards that make ties and strong hands likely
                match rng.below(5) {
                    0 => d.sort_by_key(|&x| x % 4 != 1),
                    1 => { let h = 3 + rng.below(10); d.sort_by_key(|&x| !(x / 4 + 4 >= h && x / 4 <= h)) }
                    2 => { let (x, y) = (rng.below(13), rng.below(13)); d.sort_by_key(|&q| q / 4 != x && q / 4 != y) }
                    3 => d.sort_by_key(|&x| x / 4 < 8),
                    _ => d.sort_by_key(|&x| x / 4 > 4 && x / 4 != 12),
                }
                let k = rng.below(12);
                let n = own * players + b;
                rng.shuffle(&mut d[k.min(n - 1)..]);
                d.into_iter().map(card).collect()
            };
            if deck.len() != 52 { c.rep.violation(json!({"what": "a shuffled deck does not have 52 cards", "deck": names_of(&deck)})); break; }
            let board = &deck[..b];
            let hands: Vec<Vec<Card>> = (0..players).map(|i| if stacked { deck[b + own * i..b + own * (i + 1)].to_vec() } else { (0..own).map(|k| deck[b + k * players + i]).collect() }).collect();
            let numbers: Vec<Vec<usize>> = hands.iter().map(|h| { let mut v: Vec<usize> = h.iter().chain(board).map(|x| number_of(*x)).collect(); v.sort_unstable(); v }).collect();
            if numbers.iter().any(|v| v.windows(2).any(|p| p[0] == p[1]) || v.iter().any(|&x| x > 51)) {
                c.rep.violation(json!({"what": "the deck dealt a card twice", "deck": names_of(&deck)}));
                break;
            }
            let best: Vec<u16> = numbers.iter().map(|v| ix.best(v)).collect();
            let top = *best.iter().max().unwrap();
            let want: Vec<usize> = (0..players).filter(|&i| best[i] == top).collect();
            *mine.entry(want.len()).or_default() += 1;
            for (via, got) in ways(&ev, board, &hands) {
                c.rep.check(got.as_ref() == Ok(&want), || json!({"what": "wrong winners", "via": via, "board": names_of(board), "hands": hands.iter().map(|h| names_of(h)).collect::<Vec<_>>(),
                    "winners": match &got { Ok(w) => json!(w), Err(e) => json!(e) }, "expected": want, "expected_hand": c.l().steps[top as usize].name}));
            }
            if t == 7 { c.rep.sample(json!({"board": names_of(board), "hands": hands.iter().map(|h| names_of(h)).collect::<Vec<_>>(), "winners": want, "with": c.l().steps[top as usize].name})); }
        }
        let mut g = tallies.lock().unwrap();
        for (k, n) in mine { *g.entry(k).or_default() += n; }
    });
    c.rep.note("tables_by_number_of_winners", json!(*tallies.lock().unwrap()));
}
