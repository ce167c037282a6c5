//! Properties of evaluation and of evaluations: C01..C08, C22.
use crate::calls::*;
use crate::table::*;
use crate::util::*;
use poker::{Card, Eval, EvalClass, EvalError, Evaluator};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn expected(l: &Ladder, step: usize) -> Value {
    let s = &l.steps[step];
    json!({"class": CLASS_NAMES[s.cat as usize], "r1": s.r1, "r2": s.r2, "name": s.name, "step_from_weakest": step + 1})
}
fn to_cards(h: &[usize; 5]) -> [Card; 5] { h.map(card) }
pub fn permutations5() -> Vec<[usize; 5]> {
    let mut v = vec![];
    for a in 0..5 {
        for b in 0..5 {
            for c in 0..5 {
                for d in 0..5 {
                    let m = 1 << a | 1 << b | 1 << c | 1 << d;
                    if (m as u32).count_ones() == 4 {
                        let e = (0..5).find(|i| m >> i & 1 == 0).unwrap();
                        v.push([a, b, c, d, e]);
                    }
                }
            }
        }
    }
    v
}
/// Evaluations of one concrete hand per step, hands chosen by the stream.
pub fn reps(c: &Ctx, ev: &Evaluator, stream: u64) -> Option<(Vec<[usize; 5]>, Vec<Eval>)> {
    let mut rng = Rng::new(c.seed, stream);
    let mut hs = vec![];
    let mut es = vec![];
    for s in 0..c.l().steps.len() {
        let h = c.l().hand(s, &mut rng);
        let r = vary(0, ev, &to_cards(&h));
        match r {
            Ok(Ok(e)) => {
                hs.push(h);
                es.push(e);
            }
            _ => {
                c.rep.violation(json!({"what": "a five-card hand does not evaluate", "cards": names(&h), "got": show(&r), "expected": expected(c.l(), s)}));
                return None;
            }
        }
    }
    Some((hs, es))
}

/// An evaluation as users make them: now and then in another container, on an
/// evaluator obtained in another way, or after calls of other kinds.
pub fn vary(w: usize, ev: &Evaluator, cards: &[Card]) -> Res {
    use std::cell::Cell;
    thread_local! { static COUNT: Cell<u64> = const { Cell::new(0) }; }
    let n = COUNT.with(|c| { c.set(c.get() + 1); c.get() });
    if n % 16 != 5 { return eval(w, ev, cards); }
    let k = n / 16;
    if k % 23 == 3 { around(ev, cards, k); }
    let others = others();
    let e = match k % 3 { 0 => ev, _ => &others[(k / 3) as usize % others.len()] };
    guard(|| evaluate_as(e, cards, CONTAINERS[(k % 10) as usize]))
}
fn others() -> &'static [Evaluator] {
    static OTHERS: std::sync::OnceLock<Vec<Evaluator>> = std::sync::OnceLock::new();
    OTHERS.get_or_init(|| guard(|| {
        let a = Evaluator::new();
        let b = a.clone();
        let c = b.clone();
        drop(b);
        vec![Evaluator::default(), a, c, std::thread::spawn(Evaluator::new).join().unwrap()]
    }).unwrap_or_else(|_| vec![Evaluator::new()]))
}
/// Other things a program does between two evaluations.
fn around(ev: &Evaluator, cards: &[Card], k: u64) {
    let _ = guard(|| {
        let deck: Vec<Card> = poker::deck::generate().skip((k % 40) as usize).take(9).collect();
        match k % 7 {
            0 => { let _ = ev.evaluate([cards, cards].concat()); }
            1 => { let _ = ev.evaluate(&deck[..7]); }
            2 => { let _ = ev.evaluate(&deck[..(k % 5) as usize]); }
            3 => { let _ = ev.evaluate(&deck); }
            4 => { let _ = Card::parse_to_iter(["As", "Xx", "Kd", ""]).try_collect::<Vec<Card>>().map_err(|e| e.to_string()); }
            5 => { std::hint::black_box(poker::deck::shuffled()); }
            _ => { let _ = ev.evaluate(&deck[..6]).map(|e| (e.to_string(), e.class(), e > poker::Eval::WORST)); }
        }
    });
}

pub fn c01(c: &Ctx) {
    let ev = Evaluator::new();
    let perms = permutations5();
    par(52, c.rep, |w, i| {
        let top = 51 - i;
        let mut n = 0u64;
        each_hand5_top(top, &mut |h| {
            if c.rep.stop() {
                return;
            }
            beat(w, mask(h));
            let st = &c.l().steps[c.l().of(h) as usize];
            let want = (st.cat, st.r1, st.r2);
            let cs = to_cards(h);
            for p in &perms {
                let o = p.map(|k| cs[k]);
                n += 1;
                let r = vary(w, &ev, &o);
                let ok = match &r {
                    Ok(Ok(e)) => class_triple(e.class()) == want && e.is_royal_flush() == (want == (8, 12, -1)),
                    _ => false,
                };
                if !ok {
                    c.rep.violation(json!({"what": "wrong class", "cards": names_of(&o), "got": show(&r), "expected": expected(c.l(), c.l().of(h) as usize)}));
                    break;
                }
            }
        });
        c.rep.add(n);
    });
    c.rep.note("hands", 2598960);
    c.rep.note("orders_per_hand", 120);
    let mut rng = Rng::new(c.seed, 11);
    for _ in 0..4 {
        let s = rng.below(7462);
        let h = c.l().hand(s, &mut rng);
        c.rep.sample(json!({"cards": names(&h), "got": show(&eval(0, &ev, &to_cards(&h))), "expected": expected(c.l(), s)}));
    }
}

fn sign(a: usize, b: usize) -> Ordering { a.cmp(&b) }

pub fn c02(c: &Ctx) {
    let ev = Evaluator::new();
    let (Some((hs, es)), Some((hs2, es2))) = (reps(c, &ev, 21), reps(c, &ev, 22)) else { return };
    // every pair of strengths
    par(7462, c.rep, |w, i| {
        beat(w, mask(&hs[i]));
        for j in 0..7462 {
            let (a, b) = (es[i], es2[j]);
            let want = sign(i, j);
            let r = guard(|| {
                a.is_better_than(b) == (want == Ordering::Greater)
                    && a.is_worse_than(b) == (want == Ordering::Less)
                    && a.is_equal_to(b) == (want == Ordering::Equal)
                    && a.cmp(&b) == want
                    && (a > b) == (want == Ordering::Greater)
                    && (a < b) == (want == Ordering::Less)
                    && (a == b) == (want == Ordering::Equal)
                    && a.partial_cmp(&b) == Some(want)
                    && (a >= b) == (want != Ordering::Less)
                    && (a <= b) == (want != Ordering::Greater)
                    && (a != b) == (want != Ordering::Equal)
            });
            if r != Ok(true) {
                c.rep.violation(json!({"what": "wrong comparison", "a": names(&hs[i]), "b": names(&hs2[j]), "expected": format!("{:?}", want),
                    "better": guard(|| a.is_better_than(b)).ok(), "worse": guard(|| a.is_worse_than(b)).ok(), "equal": guard(|| a.is_equal_to(b)).ok(),
                    "cmp": guard(|| format!("{:?}", a.cmp(&b))).ok()}));
            }
        }
        c.rep.add(7462);
    });
    // every hand has the strength of its step
    par(52, c.rep, |w, i| {
        let mut rng = Rng::new(c.seed, 2000 + i as u64);
        let mut n = 0;
        each_hand5_top(51 - i, &mut |h| {
            if c.rep.stop() {
                return;
            }
            beat(w, mask(h));
            let s = c.l().of(h) as usize;
            let mut o = *h;
            rng.shuffle(&mut o);
            let r = vary(w, &ev, &to_cards(&o));
            n += 1;
            let j = rng.below(7462);
            let ok = match &r {
                Ok(Ok(e)) => {
                    e.is_equal_to(es[s]) && !e.is_better_than(es[s]) && !e.is_worse_than(es[s]) && *e == es[s]
                        && e.cmp(&es[s]) == Ordering::Equal && e.cmp(&es2[j]) == sign(s, j) && es2[j].cmp(e) == sign(j, s)
                        && e.is_better_than(es2[j]) == (s > j) && e.is_worse_than(es2[j]) == (s < j)
                }
                _ => false,
            };
            if !ok {
                c.rep.violation(json!({"what": "a hand does not compare as its strength", "cards": names(&o), "got": show(&r),
                    "expected": expected(c.l(), s), "also_compared_with": names(&hs2[j])}));
            }
        });
        c.rep.add(n);
    });
    c.rep.note("strengths", 7462);
    let mut rng = Rng::new(c.seed, 23);
    for _ in 0..4 {
        let (i, j) = (rng.below(7462), rng.below(7462));
        c.rep.sample(json!({"a": names(&hs[i]), "b": names(&hs2[j]), "cmp": format!("{:?}", es[i].cmp(&es2[j]))}));
    }
}

/// all size-k index sets of 0..n
fn combos(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut idx: Vec<usize> = (0..k).collect();
    loop {
        out.push(idx.clone());
        let mut i = k;
        loop {
            if i == 0 {
                return out;
            }
            i -= 1;
            if idx[i] < n - k + i {
                idx[i] += 1;
                for j in i + 1..k {
                    idx[j] = idx[j - 1] + 1;
                }
                break;
            }
        }
    }
}

pub fn c03(c: &Ctx) {
    let ev = Evaluator::new();
    let ix = Index::new(c.l());
    let Some((_, es)) = reps(c, &ev, 31) else { return };
    let test = |w: usize, cards: &[Card], best: usize, what: &str| {
        let r = vary(w, &ev, cards);
        let ok = match &r {
            Ok(Ok(e)) => *e == es[best] && e.is_equal_to(es[best]) && e.class() == es[best].class(),
            _ => false,
        };
        if !ok {
            c.rep.violation(json!({"what": what, "cards": names_of(cards), "got": show(&r), "expected": expected(c.l(), best)}));
        }
    };
    // all hands of 6 and 7 cards (thorough: 8), in random orders
    let mut swept = vec![];
    let sizes: &[usize] = if c.thorough { &[6, 7, 8] } else { &[6, 7] };
    for &n in sizes {
        // items: the two highest cards
        let mut tops = vec![];
        for a in (0..52).rev() {
            for b in (0..a).rev() {
                if b >= n - 2 {
                    tops.push((a, b));
                }
            }
        }
        par(tops.len(), c.rep, |w, t| {
            let (a, b) = tops[t];
            let mut rng = Rng::new(c.seed, 3_000_000 + (n * 10000 + t) as u64);
            let mut k = 0u64;
            let mut idx: Vec<usize> = (0..n - 2).collect();
            let mut s = vec![0usize; n];
            let mut cs = vec![card(0); n];
            'all: loop {
                if c.rep.stop() {
                    break;
                }
                s[..n - 2].copy_from_slice(&idx);
                s[n - 2] = b;
                s[n - 1] = a;
                beat(w, mask(&s));
                let best = ix.best(&s) as usize;
                // a random order of the cards
                let mut bits = rng.next();
                for i in 0..n {
                    cs[i] = card(s[i]);
                    let j = (bits % (i as u64 + 1)) as usize;
                    bits /= i as u64 + 1;
                    cs.swap(i, j);
                }
                test(w, &cs, best, "not the best five-card hand");
                k += 1;
                let mut i = n - 2;
                loop {
                    if i == 0 {
                        break 'all;
                    }
                    i -= 1;
                    if idx[i] < b - (n - 2) + i {
                        idx[i] += 1;
                        for j in i + 1..n - 2 {
                            idx[j] = idx[j - 1] + 1;
                        }
                        break;
                    }
                }
            }
            c.rep.add(k);
        });
        swept.push(n);
    }
    c.rep.note("all_hands_of_sizes", json!(swept));
    // Directed: the unique best five placed at every combination of positions,
    // for several kinds of best hand, so that every combination must be tried.
    let maxn = if c.thorough { 16 } else { 12 };
    let mut jobs = vec![];
    for n in 6..=maxn {
        for p in combos(n, 5) {
            jobs.push(p.iter().fold(n as u64, |v, &x| v * 64 + x as u64));
        }
    }
    c.rep.note("directed_position_sets", jobs.len());
    par(jobs.len(), c.rep, |w, t| {
        let mut v = jobs[t];
        let mut pos = [0; 5];
        for i in (0..5).rev() {
            pos[i] = (v % 64) as usize;
            v /= 64;
        }
        let n = v as usize;
        let mut rng = Rng::new(c.seed, 3_500_000 + t as u64);
        for kind in 0..4 {
            // five cards that only win together, and fillers that leave them
            // the unique best hand
            let want: Vec<usize> = match kind {
                0 => { let s = rng.below(4); let top = rng.range(4, 12); (top - 4..=top).map(|r| 4 * r + s).collect() }       // straight flush
                1 => { let s = rng.below(4); vec![48 + s, s, 4 + s, 8 + s, 12 + s] }                              // steel wheel
                2 => { let r = rng.below(13); let mut k = 12; if r == 12 { k = 11 } ; vec![4*r, 4*r+1, 4*r+2, 4*r+3, 4*k + rng.below(4)] } // quads, best kicker
                _ => { let s = rng.below(4); let mut r = vec![12, 11, 10, 9, 7]; rng.shuffle(&mut r); r.iter().map(|x| 4*x + s).collect() } // ace-high flush
            };
            let target = { let mut h = [want[0], want[1], want[2], want[3], want[4]]; h.sort(); ix.step[ix.at(&h)] };
            // fillers: try random cards; keep when the best five stays unique
            let mut cs = want.clone();
            let mut tries = 0;
            while cs.len() < n && tries < 400 {
                tries += 1;
                let f = rng.below(52);
                if cs.contains(&f) { continue; }
                // any hand using f must be weaker: check hands with f
                let mut s: Vec<usize> = cs.clone();
                s.push(f);
                let mut unique = true;
                for q in combos(cs.len(), 4) {
                    let mut h = [cs[q[0]], cs[q[1]], cs[q[2]], cs[q[3]], f];
                    h.sort();
                    if ix.step[ix.at(&h)] >= target { unique = false; break; }
                }
                if unique { cs.push(f); }
            }
            if cs.len() < n { continue; }
            let fill = &mut cs[5..].to_vec();
            rng.shuffle(fill);
            let mut five = want.clone();
            rng.shuffle(&mut five);
            let mut line = vec![usize::MAX; n];
            for (i, &p) in pos.iter().enumerate() { line[p] = five[i]; }
            let mut it = fill.iter();
            for x in line.iter_mut() { if *x == usize::MAX { *x = *it.next().unwrap(); } }
            beat(w, mask(&line));
            let l: Vec<Card> = line.iter().map(|&x| card(x)).collect();
            test(w, &l, target as usize, "the best five cards at these positions were missed");
            c.rep.add(1);
            if t % 40000 == 7 { c.rep.sample(json!({"cards": names(&line), "best_at": pos, "expected": c.l().steps[target as usize].name})); }
        }
    });
    // A royal flush with no other in the hand, at every combination of the
    // positions of longer hands, and at outer and random ones of the longest.
    let all = if c.thorough { 24 } else { 20 };
    let mut jobs: Vec<(usize, [usize; 5])> = vec![];
    for n in maxn + 1..=all {
        jobs.extend(combos(n, 5).into_iter().map(|p| (n, [p[0], p[1], p[2], p[3], p[4]])));
    }
    c.rep.note("royal_at_every_combination_up_to_length", all);
    let mut pick = Rng::new(c.seed, 3_800_000);
    for n in all + 1..=49 {
        let few = if n < 32 { 24 } else { 8 } * if c.thorough { 6 } else { 1 };
        for k in 0..few {
            let mut p: Vec<usize> = match k {
                0 => (n - 5..n).collect(),
                1 => (0..5).collect(),
                2 => vec![0, 1, 2, 3, n - 1],
                3 => vec![0, n - 4, n - 3, n - 2, n - 1],
                _ => { let mut q: Vec<usize> = (0..n).collect(); pick.shuffle(&mut q); q.truncate(5); q }
            };
            p.sort();
            jobs.push((n, [p[0], p[1], p[2], p[3], p[4]]));
        }
    }
    // the longest first
    jobs.reverse();
    par(jobs.len(), c.rep, |w, t| {
        let (n, pos) = jobs[t];
        let mut rng = Rng::new(c.seed, 3_900_000 + t as u64);
        let s = rng.below(4);
        // one royal rank is missing from each other suit
        let mut rest: Vec<usize> = (0..52).filter(|x| !(x % 4 == s && x / 4 >= 8)).collect();
        let gone: Vec<usize> = (0..4).filter(|&q| q != s).map(|q| 4 * rng.range(8, 12) + q).collect();
        rest.retain(|x| !gone.contains(x));
        rng.shuffle(&mut rest);
        let mut five: Vec<usize> = (8..13).map(|r| 4 * r + s).collect();
        rng.shuffle(&mut five);
        let mut line = vec![usize::MAX; n];
        for (i, &p) in pos.iter().enumerate() { line[p] = five[i]; }
        let mut it = rest.iter();
        for x in line.iter_mut() { if *x == usize::MAX { *x = *it.next().unwrap(); } }
        beat(w, mask(&line));
        test(w, &line.iter().map(|&x| card(x)).collect::<Vec<_>>(), 7461, "the royal flush at these positions was missed");
        c.rep.add(1);
    });
    // random larger hands, up to the whole deck; adding cards never hurts
    let rounds = if c.thorough { 40000 } else { 4000 };
    par(rounds, c.rep, |w, t| {
        let mut rng = Rng::new(c.seed, 4_000_000 + t as u64);
        let n = if t % 64 == 0 { rng.range(30, 52) } else if t % 5 == 0 { rng.range(6, 15) } else { rng.range(8, 16) };
        let mut deck: Vec<usize> = (0..52).collect();
        // biased pools make flushes, straights and multiples collide
        match t % 4 {
            1 => { let s = rng.below(4); deck.sort_by_key(|c| (c % 4 != s, c.wrapping_mul(2654435761) % 97)); let k = n.min(9); rng.shuffle(&mut deck[..13]); rng.shuffle(&mut deck[k..]); }
            2 => { let r = rng.below(8); deck.sort_by_key(|c| (c / 4 < r || c / 4 > r + 5, *c)); rng.shuffle(&mut deck[..24.max(n)]); }
            _ => rng.shuffle(&mut deck),
        }
        let mut h: Vec<usize> = deck[..n].to_vec();
        if t % 5 == 0 && n < 16 {
            // no flush: at most four cards of a suit; few of a rank
            rng.shuffle(&mut deck);
            let most = rng.range(1, 3);
            let mut suit = [0; 4];
            let mut rank = [0; 13];
            h.clear();
            for &x in &deck {
                if h.len() < n && suit[x % 4] < 4 && (rank[x / 4] < most || h.len() + 13 < n) { suit[x % 4] += 1; rank[x / 4] += 1; h.push(x); }
            }
            for &x in &deck { if h.len() < n.min(16) && suit[x % 4] < 4 && !h.contains(&x) { suit[x % 4] += 1; h.push(x); } }
        }
        let n = h.len();
        rng.shuffle(&mut h);
        let mut s = h.clone();
        s.sort();
        beat(w, mask(&s));
        let best = ix.best(&s) as usize;
        let l: Vec<Card> = h.iter().map(|&x| card(x)).collect();
        test(w, &l, best, "not the best five-card hand");
        c.rep.add(1);
        if n <= 14 && n > 5 {
            let k = rng.range(5, n - 1);
            if let (Ok(Ok(a)), Ok(Ok(b))) = (vary(w, &ev, &l[..k]), vary(w, &ev, &l)) {
                c.rep.check(!b.is_worse_than(a) && b >= a, || json!({"what": "adding cards made the hand worse", "cards": names(&h), "first": k}));
            }
        }
    });
    c.rep.sample(json!({"whole_deck": show(&eval(0, &ev, &(0..52).map(card).collect::<Vec<_>>()))}));
    test(0, &(0..52).map(card).collect::<Vec<_>>(), 7461, "the whole deck holds a royal flush");
}

/// C04: order, container and history make no difference.
pub fn c04(c: &Ctx) {
    use std::borrow::Cow;
    use std::rc::Rc;
    use std::sync::Arc;
    let ev = Evaluator::new();
    let perms = permutations5();
    // all orders of all five-card hands, each against the ascending order
    par(52, c.rep, |w, i| {
        let mut n = 0;
        each_hand5_top(51 - i, &mut |h| {
            if c.rep.stop() { return; }
            beat(w, mask(h));
            let cs = to_cards(h);
            let base = eval(w, &ev, &cs);
            for p in &perms {
                let o = p.map(|k| cs[k]);
                let r = eval(w, &ev, &o);
                n += 1;
                if !same(&base, &r) || base.is_err() {
                    c.rep.violation(json!({"what": "another order of the same cards evaluates differently", "cards": names_of(&cs), "order": names_of(&o), "first": show(&base), "second": show(&r)}));
                    break;
                }
            }
        });
        c.rep.add(n);
    });
    // orders of larger hands, containers, and long histories: each call is
    // compared with the same call made first, on a fresh evaluator
    let rounds = if c.thorough { 4000 } else { 400 };
    par(rounds, c.rep, |w, t| {
        let mut rng = Rng::new(c.seed, 40_000 + t as u64);
        // a set of inputs, good and bad
        let mut inputs: Vec<Vec<Card>> = vec![];
        for _ in 0..12 {
            let n = [0, 1, 3, 4, 5, 5, 5, 6, 7, 7, 8, 10][rng.below(12)];
            let mut d: Vec<usize> = (0..52).collect();
            rng.shuffle(&mut d);
            let mut h: Vec<usize> = d[..n].to_vec();
            if n > 1 && rng.chance(1, 4) {
                let (a, b) = (rng.below(n), rng.below(n));
                h[a] = h[b];
                if a == b { h.push(h[a]); }
            }
            inputs.push(h.iter().map(|&x| card(x)).collect());
        }
        // neighbours: hands differing in one card, likely to collide in a careless cache
        for k in 0..4 {
            let mut v = inputs[k].clone();
            if !v.is_empty() {
                let i = rng.below(v.len());
                v[i] = card(rng.below(52));
                inputs.push(v);
            }
        }
        let first: Vec<Res> = inputs.iter().map(|h| { let f = Evaluator::new(); eval(w, &f, h) }).collect();
        let mine = Evaluator::new();
        for step in 0..200 {
            let k = rng.below(inputs.len());
            let mut h = inputs[k].clone();
            let dup = matches!(&first[k], Ok(Err(EvalError::CardsNotUnique(_))));
            if !dup { rng.shuffle(&mut h); }
            beat(w, k as u64);
            let e = if rng.chance(1, 2) { &ev } else { &mine };
            let n = h.len();
            let r: Res = guard(|| match rng.below(9) {
                0 => e.evaluate(&h),
                1 => e.evaluate(h.clone()),
                2 => e.evaluate(h.clone().into_boxed_slice()),
                3 => e.evaluate(&h[..]),
                4 => e.evaluate(Arc::<[Card]>::from(h.clone())),
                5 => e.evaluate(Rc::new(h.clone()).as_slice()),
                6 => e.evaluate(Cow::Borrowed(&h[..])),
                7 => e.evaluate(&&&h[..]),
                _ => match n {
                    5 => e.evaluate([h[0], h[1], h[2], h[3], h[4]]),
                    6 => e.evaluate(&[h[0], h[1], h[2], h[3], h[4], h[5]]),
                    7 => e.evaluate([h[0], h[1], h[2], h[3], h[4], h[5], h[6]]),
                    _ => e.evaluate(&mut h.clone()[..]),
                },
            });
            c.rep.check(same(&first[k], &r), || json!({"what": "a call returned something else than when made first", "cards": names_of(&h), "at_step": step, "first": show(&first[k]), "now": show(&r)}));
        }
        if t == 3 { c.rep.sample(json!({"history_of": inputs.iter().map(|h| names_of(h).join(" ")).collect::<Vec<_>>(), "calls": 200})); }
    });
    // every order of some six-card hands, many orders of larger ones
    let rounds = if c.thorough { 2000 } else { 150 };
    par(rounds, c.rep, |w, t| {
        let mut rng = Rng::new(c.seed, 49_000 + t as u64);
        let n = rng.range(6, 9);
        let mut d: Vec<usize> = (0..52).collect();
        rng.shuffle(&mut d);
        if t % 2 == 0 { d.sort_by_key(|c| (c % 4 + c / 16, *c)); let k = rng.below(40); d.rotate_left(k); }
        let mut h: Vec<usize> = d[..n].to_vec();
        let base = eval(w, &ev, &h.iter().map(|&x| card(x)).collect::<Vec<_>>());
        for _ in 0..720 {
            rng.shuffle(&mut h);
            beat(w, mask(&h));
            let r = eval(w, &ev, &h.iter().map(|&x| card(x)).collect::<Vec<_>>());
            c.rep.check(same(&base, &r) && base.is_ok(), || json!({"what": "another order of the same cards evaluates differently", "order": names(&h), "first": show(&base), "second": show(&r)}));
        }
    });
    // containers which themselves evaluate when asked for their cards, and
    // containers which fail: the calls around them are as if made alone
    par(if c.thorough { 20_000 } else { 2_000 }, c.rep, |w, t| {
        let mut rng = Rng::new(c.seed, 46_000 + t as u64);
        let inputs: Vec<Vec<Card>> = (0..4).map(|_| {
            let n = [0, 2, 5, 5, 5, 6, 7, 7, 9, 11][rng.below(10)];
            let mut d: Vec<usize> = (0..52).collect();
            rng.shuffle(&mut d);
            if n > 1 && rng.chance(1, 4) { d[1] = d[0]; }
            d[..n].iter().map(|&x| card(x)).collect()
        }).collect();
        let alone: Vec<Res> = inputs.iter().map(|h| eval(w, &ev, h)).collect();
        beat(w, t as u64);
        for (o, h) in inputs.iter().enumerate() {
            let inner = (o + 1 + rng.below(3)) % 4;
            let got = std::cell::RefCell::new(vec![]);
            let then = || {
                let own;
                let e = if t % 3 == 0 { own = ev.clone(); &own } else { &ev };
                let r = eval(w, e, &inputs[inner]);
                let r2: Res = guard(|| e.evaluate(asking(&inputs[o], &|| got.borrow_mut().push((inner, eval(w, &ev, &inputs[inner]))))));
                got.borrow_mut().extend([(inner, r), (o, r2)]);
                if t % 5 == 1 { let _ = format!("{:?} {}", Card::parse_to_iter("As Kd".split(' ')).collect::<Vec<_>>(), poker::deck::shuffled().len()); }
            };
            let ask = asking(h, &then);
            let r: Res = guard(|| ev.evaluate(ask));
            c.rep.check(same(&alone[o], &r), || json!({"what": "a call whose container itself evaluates returned something else than made alone", "cards": names_of(h), "inner": names_of(&inputs[inner]), "alone": show(&alone[o]), "now": show(&r)}));
            for (k, r) in got.borrow().iter() {
                c.rep.check(same(&alone[*k], r), || json!({"what": "a call made while a container gives its cards returned something else than made alone", "cards": names_of(&inputs[*k]), "outer": names_of(h), "alone": show(&alone[*k]), "now": show(r)}));
            }
            // a container that panics: its call is lost, the next ones are not
            let failed = guard(|| ev.evaluate(asking(h, &|| panic!("this container fails"))));
            c.rep.check(matches!(&failed, Err(p) if p.contains("this container fails")), || json!({"what": "a panic of the container did not reach the caller as it is", "cards": names_of(h), "got": match &failed { Err(p) => p.clone(), Ok(_) => "no panic".into() }}));
            for (k, h) in inputs.iter().enumerate() {
                let r = eval(w, &ev, h);
                c.rep.check(same(&alone[k], &r), || json!({"what": "a call made after a container failed returned something else", "cards": names_of(h), "before": show(&alone[k]), "after": show(&r)}));
            }
        }
    });
    // one very long history on one evaluator
    let mut rng = Rng::new(c.seed, 47);
    let five: Vec<[Card; 5]> = (0..64).map(|_| { let s = rng.below(7462); to_cards(&c.l().hand(s, &mut rng)) }).collect();
    let base: Vec<Res> = five.iter().map(|h| eval(0, &ev, h)).collect();
    BUSY[0].store(true, std::sync::atomic::Ordering::Relaxed);
    let n = if c.thorough { 200_000_000u64 } else { 20_000_000 };
    for i in 0..n {
        let k = (rng.next() % 64) as usize;
        beat(0, k as u64);
        let r = eval(0, &ev, &five[k]);
        if !same(&base[k], &r) {
            c.rep.violation(json!({"what": "a call returned something else late in a long history", "cards": names_of(&five[k]), "call_number": i, "first": show(&base[k]), "now": show(&r)}));
            if c.rep.stop() { break; }
        }
    }
    BUSY[0].store(false, std::sync::atomic::Ordering::Relaxed);
    c.rep.add(n);
    c.rep.note("long_history_calls", n);
}

/// C05: errors and totality.
pub fn c05(c: &Ctx) {
    let ev = Evaluator::new();
    let judge = |w: usize, h: &[usize], cs: &[Card]| {
        let mut m = 0u64;
        let mut dup = false;
        for &x in h {
            dup |= m >> x & 1 == 1;
            m |= 1 << x;
        }
        beat(w, m);
        let r = vary(w, &ev, cs);
        let ok = match &r {
            Err(_) => false,
            Ok(Ok(_)) => !dup && h.len() >= 5,
            Ok(Err(EvalError::CardsNotUnique(v))) => dup && v[..] == *cs && v.iter().zip(h).all(|(a, &b)| number_of(*a) == b),
            Ok(Err(EvalError::InvalidHandSize(n))) => !dup && h.len() < 5 && *n == h.len(),
        };
        if !ok {
            c.rep.violation(json!({"what": "wrong outcome", "cards": names(h), "got": show(&r),
                "expected": if dup { "not-unique error with the whole input" } else if h.len() < 5 { "hand-size error with the number of cards" } else { "success" }}));
        }
    };
    judge(0, &[], &[]);
    c.rep.add(1);
    // all sequences of one to five cards, with repetitions
    let deep = 5;
    par(52 * 52, c.rep, |w, t| {
        let (a, b) = (t / 52, t % 52);
        let mut h = [a, b, 0, 0, 0];
        let mut cs = [card(a), card(b), card(0), card(0), card(0)];
        let mut n = 0u64;
        judge(w, &h[..2], &cs[..2]);
        n += 1;
        if b == 0 { judge(w, &h[..1], &cs[..1]); n += 1; }
        for x in 0..52 {
            h[2] = x;
            cs[2] = card(x);
            judge(w, &h[..3], &cs[..3]);
            for y in 0..52 {
                if c.rep.stop() { return; }
                h[3] = y;
                cs[3] = card(y);
                judge(w, &h[..4], &cs[..4]);
                n += 2;
                if deep == 5 {
                    for z in 0..52 {
                        h[4] = z;
                        cs[4] = card(z);
                        judge(w, &h, &cs);
                    }
                    n += 52;
                }
            }
        }
        c.rep.add(n);
    });
    c.rep.note("all_sequences_up_to_length", deep);
    // every card repeated at every pair of positions, longer hands
    let maxn = if c.thorough { 30 } else { 14 };
    for n in 6..=maxn {
        par(52, c.rep, |w, x| {
            let mut rng = Rng::new(c.seed, 50_000 + (n * 100 + x) as u64);
            let mut k = 0;
            for i in 0..n {
                for j in 0..i {
                    let mut d: Vec<usize> = (0..52).filter(|&y| y != x).collect();
                    rng.shuffle(&mut d);
                    let mut h = d[..n].to_vec();
                    h[i] = x;
                    h[j] = x;
                    if rng.chance(1, 3) {
                        let (p, q) = (rng.below(n), rng.below(n));
                        h[p] = h[q];
                    }
                    let cs: Vec<Card> = h.iter().map(|&y| card(y)).collect();
                    judge(w, &h, &cs);
                    k += 1;
                }
            }
            c.rep.add(k);
        });
    }
    c.rep.note("repeat_positions_up_to_length", maxn);
    // distinct hands of every size, and over-long inputs
    let rounds = if c.thorough { 60 } else { 6 };
    par(47 * rounds, c.rep, |w, t| {
        let n = 52 - t % 47;
        let mut rng = Rng::new(c.seed, 60_000 + t as u64);
        let mut d: Vec<usize> = (0..52).collect();
        rng.shuffle(&mut d);
        // sizes around 20..30 cost the most combinations per call of the middle; all are bounded
        let h = &d[..n];
        judge(w, h, &h.iter().map(|&y| card(y)).collect::<Vec<_>>());
        let m = [53, 54, 64, 65, 100, 104, 128, 255, 256, 257, 1000, 65536][rng.below(12)];
        let mut long = d.clone();
        while long.len() < m { long.push(rng.below(52)); }
        if rng.chance(1, 2) { rng.shuffle(&mut long); }
        judge(w, &long, &long.iter().map(|&y| card(y)).collect::<Vec<_>>());
        // distinct but for the last card, and sequences of one card
        let mut late = d[..n].to_vec();
        late.push(d[rng.below(n)]);
        judge(w, &late, &late.iter().map(|&y| card(y)).collect::<Vec<_>>());
        let one = vec![d[0]; n];
        judge(w, &one, &one.iter().map(|&y| card(y)).collect::<Vec<_>>());
        c.rep.add(4);
    });
    for n in [70_000usize, 1_000_003, 5_000_000] {
        let h: Vec<usize> = (0..n).map(|i| if i < 52 { i } else { i * 7 % 52 }).collect();
        judge(0, &h, &h.iter().map(|&y| card(y)).collect::<Vec<_>>());
        c.rep.add(1);
    }
    for h in [vec![], vec![0], vec![0, 0], vec![0, 1, 2, 3, 0], vec![5, 9, 13, 17, 21]] {
        c.rep.sample(json!({"cards": names(&h), "got": show(&eval(0, &ev, &h.iter().map(|&y| card(y)).collect::<Vec<_>>()))}));
    }
}

fn h64<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// a hasher that keeps what it is fed
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); }
}
fn tape<T: Hash>(x: &T) -> Vec<u8> {
    let mut t = Tape(vec![]);
    x.hash(&mut t);
    t.0
}

const BEST_IS_BEST: bool = Eval::BEST.is_better_than(Eval::WORST) && !Eval::BEST.is_worse_than(Eval::WORST) && Eval::BEST.is_equal_to(Eval::BEST);

pub fn c06(c: &Ctx) {
    let ev = Evaluator::new();
    let (Some((hs, es)), Some((hs2, es2))) = (reps(c, &ev, 61), reps(c, &ev, 62)) else { return };
    let forms = |a: Eval, b: Eval| -> Vec<(&'static str, Ordering)> {
        // every form, translated into an ordering (None-like outcomes become a contradiction)
        let o3 = |lt: bool, eq: bool, gt: bool| match (lt, eq, gt) {
            (true, false, false) => Ordering::Less,
            (false, true, false) => Ordering::Equal,
            (false, false, true) => Ordering::Greater,
            _ => if lt { Ordering::Greater } else { Ordering::Less }, // contradictory: differs from one of the others
        };
        let o = a.cmp(&b);
        let mut v = vec![("cmp", o), ("reverse cmp", b.cmp(&a).reverse())];
        v.push(("partial_cmp", a.partial_cmp(&b).unwrap_or(o.reverse().then(Ordering::Less))));
        v.push(("< == >", o3(a < b, a == b, a > b)));
        v.push(("methods", o3(a.is_worse_than(b), a.is_equal_to(b), a.is_better_than(b))));
        v.push(("<= >=", o3(a <= b && !(a >= b), a <= b && a >= b, a >= b && !(a <= b))));
        v.push(("!=", if a != b { if o == Ordering::Equal { Ordering::Less } else { o } } else { Ordering::Equal }));
        v
    };
    let consistent = |a: Eval, b: Eval| -> Result<(), String> {
        let v = forms(a, b);
        let o = v[0].1;
        for (n, x) in &v {
            if *x != o { return Err(format!("{} says {:?}, cmp says {:?}", n, x, o)); }
        }
        let (mx, mn) = (a.max(b), a.min(b));
        let strong = if o == Ordering::Less { b } else { a };
        let weak = if o == Ordering::Less { a } else { b };
        if mx.cmp(&strong) != Ordering::Equal || mx.class() != strong.class() { return Err("max".into()); }
        if mn.cmp(&weak) != Ordering::Equal || mn.class() != weak.class() { return Err("min".into()); }
        if std::cmp::max(a, b).cmp(&strong) != Ordering::Equal { return Err("cmp::max".into()); }
        if o == Ordering::Equal && (tape(&a) != tape(&b) || h64(&a) != h64(&b)) { return Err("equal but hashed differently".into()); }
        Ok(())
    };
    let bad = |i: &[usize], j: &[usize], e: String| c.rep.violation(json!({"what": "comparison forms disagree", "a": names(i), "b": names(j), "how": e}));
    // the order the library itself gives, to check that it is total
    let mut sorted: Vec<usize> = (0..7462).collect();
    if guard(|| sorted.sort_by(|&i, &j| es[i].cmp(&es[j]))).is_err() {
        c.rep.violation(json!({"what": "sorting evaluations panicked: not a total order"}));
        return;
    }
    let mut pos = vec![0usize; 7462];
    for (k, &i) in sorted.iter().enumerate() {
        pos[i] = if k > 0 && es[sorted[k - 1]] == es[i] { pos[sorted[k - 1]] } else { k };
    }
    par(7462, c.rep, |w, i| {
        beat(w, mask(&hs[i]));
        for j in 0..7462 {
            match guard(|| consistent(es[i], es2[j])) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => bad(&hs[i], &hs2[j], e),
                Err(e) => bad(&hs[i], &hs2[j], format!("panic: {}", e)),
            }
            // totality and transitivity: pairs follow the sorted positions
            if es[i].cmp(&es[j]) != pos[i].cmp(&pos[j]) {
                bad(&hs[i], &hs[j], "not a total order (pair contradicts the sorted order)".into());
            }
            // equal exactly when equal in strength
            if (es[i] == es2[j]) != (i == j) || es[i].is_equal_to(es2[j]) != (i == j) {
                bad(&hs[i], &hs2[j], "equality is not equality of strength".into());
            }
            if c.rep.stop() { return; }
        }
        c.rep.add(7462);
        // extremes
        let e = es[i];
        let ok = guard(|| {
            !e.is_better_than(Eval::BEST) && !e.is_worse_than(Eval::WORST) && e <= Eval::BEST && e >= Eval::WORST
                && (e == Eval::BEST) == (i == 7461) && (e == Eval::WORST) == (i == 0)
                && e.is_equal_to(Eval::BEST) == (i == 7461) && e.is_equal_to(Eval::WORST) == (i == 0)
                && consistent(e, Eval::BEST).is_ok() && consistent(Eval::WORST, e).is_ok() && consistent(Eval::BEST, e).is_ok() && consistent(e, Eval::WORST).is_ok()
        });
        if ok != Ok(true) {
            c.rep.violation(json!({"what": "BEST or WORST does not bound this evaluation", "cards": names(&hs[i])}));
        }
    });
    c.rep.check(BEST_IS_BEST, || json!({"what": "BEST and WORST in constants"}));
    for (k, e, i) in [("BEST", Eval::BEST, 7461), ("WORST", Eval::WORST, 0)] {
        let ok = e == es[i] && h64(&e) == h64(&es[i]) && e.class() == es[i].class() && e.to_string() == es[i].to_string() && predicates(e) == predicates(es[i]) && e.is_royal_flush() == (i == 7461);
        c.rep.check(ok, || json!({"what": "constant is not the extreme evaluation", "constant": k, "text": e.to_string(), "extreme": names(&hs[i])}));
    }
    c.rep.note("pairs", 7462u64 * 7462);
    let set: std::collections::HashSet<Eval> = es.iter().chain(es2.iter()).copied().collect();
    let tree: std::collections::BTreeSet<Eval> = es.iter().chain(es2.iter()).copied().collect();
    c.rep.check(set.len() == 7462 && tree.len() == 7462, || json!({"what": "sets of evaluations", "hash_set": set.len(), "tree_set": tree.len(), "expected": 7462}));
    c.rep.sample(json!({"a": names(&hs[100]), "b": names(&hs2[7000]), "forms": format!("{:?}", forms(es[100], es2[7000]))}));
}

/// every class value with the specification's key and name (from Names.tla)
pub struct ClassRow { pub cat: usize, pub r1: usize, pub r2: usize, pub ckey: i64, pub name: String }
pub fn load_classes(path: &str) -> Vec<ClassRow> {
    std::fs::read_to_string(path).expect("cannot read class table").lines().map(|l| {
        let v: Value = serde_json::from_str(l).unwrap();
        ClassRow {
            cat: v["cat"].as_u64().unwrap() as usize,
            r1: v["r1"].as_u64().unwrap() as usize,
            r2: v["r2"].as_i64().unwrap().max(0) as usize,
            ckey: v["ckey"].as_i64().unwrap(),
            name: v["name"].as_str().unwrap().into(),
        }
    }).collect()
}

pub fn c07(c: &Ctx, classes: &[ClassRow]) {
    let ev = Evaluator::new();
    let (Some((hs, es)), Some((hs2, es2))) = (reps(c, &ev, 71), reps(c, &ev, 72)) else { return };
    let one = |h: &[usize], e: Eval| {
        let r = guard(|| {
            let p = predicates(e);
            let t = class_triple(e.class());
            (0..9).all(|k| p[k] == (k as i32 == t.0)) && e.is_royal_flush() == (t == (8, 12, -1))
        });
        if r != Ok(true) {
            c.rep.violation(json!({"what": "predicates do not match the class", "cards": names(h), "class": format!("{:?}", e.class()), "predicates": format!("{:?}", predicates(e)), "royal": e.is_royal_flush()}));
        }
    };
    par(52, c.rep, |w, i| {
        let mut n = 0;
        each_hand5_top(51 - i, &mut |h| {
            if c.rep.stop() { return; }
            beat(w, mask(h));
            n += 1;
            match vary(w, &ev, &to_cards(h)) {
                Ok(Ok(e)) => one(h, e),
                r => c.rep.violation(json!({"what": "a five-card hand does not evaluate", "cards": names(h), "got": show(&r)})),
            }
        });
        c.rep.add(n);
    });
    one(&[], Eval::BEST);
    one(&[], Eval::WORST);
    // class order never contradicts strength
    par(7462, c.rep, |_, i| {
        for j in 0..7462 {
            let (a, b) = (es[i], es2[j]);
            let r = guard(|| {
                let o = a.class().cmp(&b.class());
                match o {
                    Ordering::Greater => a.is_better_than(b) && a > b,
                    Ordering::Less => a.is_worse_than(b) && a < b,
                    Ordering::Equal => true,
                }
            });
            if r != Ok(true) {
                c.rep.violation(json!({"what": "class order contradicts strength", "a": names(&hs[i]), "b": names(&hs2[j]), "a_class": format!("{:?}", a.class()), "b_class": format!("{:?}", b.class())}));
                if c.rep.stop() { return; }
            }
        }
        c.rep.add(7462);
    });
    // order and equality of all class values
    for a in classes {
        for b in classes {
            let (x, y) = (class_value(a.cat, a.r1, a.r2), class_value(b.cat, b.r1, b.r2));
            let o = a.ckey.cmp(&b.ckey);
            let r = guard(|| x.cmp(&y) == o && x.partial_cmp(&y) == Some(o) && (x == y) == (o == Ordering::Equal) && (x < y) == (o == Ordering::Less) && (x > y) == (o == Ordering::Greater) && (x <= y) == (o != Ordering::Greater) && x.max(y) == if o == Ordering::Less { y } else { x });
            c.rep.check(r == Ok(true), || json!({"what": "class values compare wrongly", "a": format!("{:?}", x), "b": format!("{:?}", y), "expected": format!("{:?}", o)}));
        }
    }
    c.rep.note("class_values", classes.len());
    c.rep.sample(json!({"cards": names(&hs[7461]), "class": format!("{:?}", es[7461].class()), "predicates": format!("{:?}", predicates(es[7461]))}));
    c.rep.sample(json!({"cards": names(&hs[3000]), "class": format!("{:?}", es[3000].class()), "predicates": format!("{:?}", predicates(es[3000]))}));
}

pub fn c08(c: &Ctx, classes: &[ClassRow]) {
    let ev = Evaluator::new();
    for k in classes {
        let v = class_value(k.cat, k.r1, k.r2);
        let r = guard(|| (v.to_string(), format!("{}", v)));
        c.rep.check(r == Ok((k.name.clone(), k.name.clone())), || json!({"what": "wrong name of a class", "class": format!("{:?}", v), "got": format!("{:?}", r), "expected": k.name}));
        if k.r1 == 7 && k.r2 < 3 { c.rep.sample(json!({"class": format!("{:?}", v), "text": v.to_string()})); }
    }
    // the text of an evaluation is the text of its class, and the proper name
    par(52, c.rep, |w, i| {
        let mut n = 0;
        each_hand5_top(51 - i, &mut |h| {
            if c.rep.stop() { return; }
            beat(w, mask(h));
            n += 1;
            let r = guard(|| {
                let e = vary(w, &ev, &to_cards(h)).ok()?.ok()?;
                Some((e.to_string(), e.class()))
            });
            let want = &c.l().steps[c.l().of(h) as usize].name;
            let ok = matches!(&r, Ok(Some((t, k))) if t == want && k.to_string() == *t);
            if !ok {
                c.rep.violation(json!({"what": "wrong text", "cards": names(h), "got": format!("{:?}", r), "expected": want}));
            }
        });
        c.rep.add(n);
    });
    let extremes = [(Eval::BEST, 7461), (Eval::WORST, 0)];
    for (e, s) in extremes {
        c.rep.check(e.to_string() == c.l().steps[s].name && e.class().to_string() == c.l().steps[s].name, || json!({"what": "wrong text of a constant", "got": e.to_string()}));
    }
    c.rep.note("class_values", classes.len());
}

/// C22: evaluators however obtained are interchangeable.
pub fn c22(c: &Ctx) {
    let build = || -> Vec<(&'static str, Evaluator)> {
        let new = Evaluator::new();
        let def = Evaluator::default();
        let c1 = new.clone();
        let c2 = def.clone();
        let c3 = { let t = Evaluator::new(); let u = t.clone(); drop(t); u };
        let c4 = c1.clone().clone();
        let t = std::thread::spawn(Evaluator::new).join().unwrap();
        let u = { let e = Evaluator::new(); std::thread::spawn(move || e.clone()).join().unwrap() };
        let mut from = Evaluator::default();
        from.clone_from(&new);
        let trait_default: Evaluator = Default::default();
        let taken = { let mut e = Evaluator::new(); std::mem::take(&mut e) };
        vec![("new", new), ("default", def), ("clone of new", c1), ("clone of default", c2), ("clone outliving its original", c3),
             ("clone of a clone", c4), ("new in a thread", t), ("cloned in a thread", u), ("clone_from", from), ("Default::default()", trait_default), ("left by mem::take", taken)]
    };
    let all = match guard(build) {
        Ok(v) => v,
        Err(p) => { c.rep.violation(json!({"what": "obtaining evaluators panicked", "panic": p})); return; }
    };
    for (n, a) in &all {
        for (m, b) in &all {
            c.rep.check(guard(|| a == b && !(a != b)) == Ok(true), || json!({"what": "evaluators do not compare equal", "a": n, "b": m}));
        }
    }
    // every hand on every evaluator, against the first one
    let reference = &all[0].1;
    par(52 * all.len(), c.rep, |w, t| {
        let (k, i) = (t % all.len(), t / all.len());
        let (how, e) = &all[k];
        let mut n = 0;
        each_hand5_top(51 - i, &mut |h| {
            if c.rep.stop() { return; }
            beat(w, mask(h));
            n += 1;
            let cs = to_cards(h);
            let (a, b) = (eval(w, reference, &cs), eval(w, e, &cs));
            if !same(&a, &b) || a.is_err() {
                c.rep.violation(json!({"what": "evaluators differ", "obtained_by": how, "cards": names(h), "this": show(&b), "new": show(&a)}));
            }
        });
        c.rep.add(n);
    });
    par(if c.thorough { 200000 } else { 20000 }, c.rep, |w, t| {
        let mut rng = Rng::new(c.seed, 220_000 + t as u64);
        let n = rng.range(0, 9);
        let mut d: Vec<usize> = (0..52).collect();
        rng.shuffle(&mut d);
        let mut h = d[..n].to_vec();
        if n > 1 && rng.chance(1, 5) { h[0] = h[n - 1]; }
        let cs: Vec<Card> = h.iter().map(|&x| card(x)).collect();
        beat(w, mask(&h));
        let a = eval(w, reference, &cs);
        for (how, e) in &all[1..] {
            let b = eval(w, e, &cs);
            c.rep.check(same(&a, &b), || json!({"what": "evaluators differ", "obtained_by": how, "cards": names(&h), "this": show(&b), "new": show(&a)}));
        }
    });
    // very many evaluators, some kept, most given up; long chains of clones
    {
        let mut rng = Rng::new(c.seed, 229_000);
        let mut hands: Vec<Vec<usize>> = (0..7462).step_by(97).map(|s| c.l().hand(s, &mut rng).to_vec()).collect();
        hands.extend((0..12).map(|i| { let mut d: Vec<usize> = (0..52).collect(); rng.shuffle(&mut d); d[..[4, 6, 7, 7, 8, 9][i % 6]].to_vec() }));
        hands.push(vec![0, 1, 2, 3, 0]);
        let cards: Vec<Vec<Card>> = hands.iter().map(|h| h.iter().map(|&x| card(x)).collect()).collect();
        let want: Vec<Res> = cards.iter().map(|h| eval(0, reference, h)).collect();
        let n = if c.thorough { 5000 } else { 700 };
        let try_it = |w: usize, how: &str, i: usize, e: &Evaluator| -> bool {
            c.rep.check(guard(|| e == reference && reference == e) == Ok(true), || json!({"what": "evaluators do not compare equal", "a": how, "b": "new", "made_before_it": i}));
            for (k, h) in cards.iter().enumerate() {
                let b = eval(w, e, h);
                c.rep.check(same(&want[k], &b), || json!({"what": "evaluators differ", "obtained_by": how, "made_before_it": i, "cards": names(&hands[k]), "this": show(&b), "new": show(&want[k])}));
            }
            !c.rep.stop()
        };
        BUSY[0].store(true, std::sync::atomic::Ordering::Relaxed);
        let r = guard(|| {
            let mut kept: Vec<Evaluator> = vec![];
            let mut chain = reference.clone();
            for i in 0..n {
                beat(0, i as u64);
                let (how, e) = match i % 3 { 0 => ("new, after many", Evaluator::new()), 1 => ("default, after many", Evaluator::default()), _ => ("clone, after many", reference.clone()) };
                if !try_it(0, how, i, &e) { return; }
                chain = chain.clone();
                if !try_it(0, "a chain of clones", i, &chain) { return; }
                if kept.len() < 150 { kept.push(e); }
            }
            // each clone made while all before it live
            let mut clones = vec![reference.clone()];
            for i in 0..if c.thorough { 1500 } else { 300 } { beat(0, i); let e = clones.last().unwrap().clone(); if !try_it(0, "a clone of the latest of many clones", i as usize, &e) { return; } clones.push(e); }
            for (i, e) in kept.iter().enumerate() { beat(0, i as u64); if !try_it(0, "kept among many", i, e) { return; } }
        });
        BUSY[0].store(false, std::sync::atomic::Ordering::Relaxed);
        if let Err(p) = r { c.rep.violation(json!({"what": "a panic among many evaluators", "panic": p})); }
        // more than a small number counts, a few hands on each
        let many = 66_000;
        par(many, c.rep, |w, i| {
            beat(w, i as u64);
            let (how, e) = match guard(|| if i % 2 == 0 { ("new, after very many", Evaluator::new()) } else { ("clone, after very many", reference.clone()) }) {
                Ok(x) => x,
                Err(p) => { c.rep.violation(json!({"what": "obtaining an evaluator panicked", "panic": p, "made_before_it": i})); return; }
            };
            if i % 16 < 2 {
                c.rep.check(guard(|| &e == reference && reference == &e) == Ok(true), || json!({"what": "evaluators do not compare equal", "a": how, "b": "new", "made_before_it": i}));
            }
            for j in 0..4 {
                let k = (4 * i + j) % cards.len();
                let b = eval(w, &e, &cards[k]);
                c.rep.check(same(&want[k], &b), || json!({"what": "evaluators differ", "obtained_by": how, "made_before_it": i, "cards": names(&hands[k]), "this": show(&b), "new": show(&want[k])}));
            }
        });
        c.rep.note("evaluators_made", n + many);
    }
    c.rep.note("obtained_by", json!(all.iter().map(|x| x.0).collect::<Vec<_>>()));
    let h = [4, 9, 14, 19, 24];
    for (how, e) in all.iter().take(5) { c.rep.sample(json!({"obtained_by": how, "cards": names(&h), "got": show(&eval(0, e, &to_cards(&h)))})); }
    let _ = EvalClass::HighCard { high_rank: RANKS[0] };
}
