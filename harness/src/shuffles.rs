//! C14: shuffles.
use crate::calls::*;
use crate::table::*;
use crate::util::*;
use poker::Card;
use rand::rngs::mock::StepRng;
use rand::rngs::{OsRng, StdRng};
use rand::{RngCore, SeedableRng};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Mutex;

/// A small generator of our own, to stand for "every random generator".
#[derive(Clone)]
pub struct Own(pub Rng, pub u64);
impl RngCore for Own {
    fn next_u32(&mut self) -> u32 { self.1 += 1; (self.0.next() >> 17) as u32 }
    fn next_u64(&mut self) -> u64 { self.1 += 1; self.0.next() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u32() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
/// A generator that shuffles another deck each time it is asked for bits, and
/// fails after a number of them.
struct Busy(StdRng, StdRng, u64, u64);
impl Busy {
    fn other(&mut self) {
        if self.2 == self.3 { panic!("this generator fails"); }
        self.2 += 1;
        let d = poker::deck::shuffled_with(&mut self.1);
        if self.2 % 16 == 1 { std::hint::black_box((d, poker::deck::shuffled(), poker::deck::generate().count())); }
    }
}
impl RngCore for Busy {
    fn next_u32(&mut self) -> u32 { self.other(); self.0.next_u32() }
    fn next_u64(&mut self) -> u64 { self.other(); self.0.next_u64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.other(); self.0.fill_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn ids(v: &[Card]) -> Vec<usize> { v.iter().map(|c| number_of(*c)).collect() }
fn is_deck(v: &[usize]) -> bool { v.len() == 52 && v.iter().all(|&c| c < 52) && v.iter().fold(0u64, |m, &c| m | 1 << c) == (1 << 52) - 1 }

/// Two copies of a generator: same decks, whatever happens in between; the
/// decks of one generator differ.
fn reproducible<R: RngCore + Clone>(c: &Ctx, kind: &str, seed: u64, r: R, distinct: bool) {
    let run = guard(|| {
        let (mut a, mut b) = (r.clone(), r.clone());
        let first: Vec<Vec<usize>> = (0..4).map(|_| ids(&poker::deck::shuffled_with(&mut a))).collect();
        let mut other = StdRng::seed_from_u64(seed ^ 0xabcdef);
        let second: Vec<Vec<usize>> = (0..4).map(|i| {
            if i % 2 == 1 { std::hint::black_box(poker::deck::shuffled_with(&mut other)); std::hint::black_box(poker::deck::shuffled()); }
            if i == 2 { let d: &mut dyn RngCore = &mut b; ids(&poker::deck::shuffled_with(d)) } else { ids(&poker::deck::shuffled_with(&mut b)) }
        }).collect();
        (first, second, a.next_u64() == b.next_u64())
    });
    match run {
        Err(p) => c.rep.violation(json!({"what": "shuffling panicked", "generator": kind, "seed": seed, "panic": p})),
        Ok((f, s, state)) => {
            c.rep.check(f.iter().all(|d| is_deck(d)), || json!({"what": "a shuffled deck is no deck", "generator": kind, "seed": seed, "decks": f.iter().map(|d| d.iter().map(|&x| if x < 52 { name(x) } else { "?".into() }).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>()}));
            c.rep.check(f == s && state, || json!({"what": "generators in the same state give different decks", "generator": kind, "seed": seed}));
            if distinct { c.rep.check(f.iter().collect::<HashSet<_>>().len() == 4, || json!({"what": "separate shuffles of one generator are the same", "generator": kind, "seed": seed})); }
        }
    }
}

/// Counts over many shuffles; each count is close to what it is when every
/// order is equally likely.
pub struct Tally {
    n: u64,
    pos: Vec<u64>,      // card at position
    before: Vec<u64>,   // a before b
    follow: Vec<u64>,   // b right after a
    triple: Vec<u64>,   // order patterns of some triples
    even: u64,
    first2: Vec<u64>,   // ordered pair on top
    again: Vec<u64>,    // position of the previous deck's position-p card
    sums: [(f64, f64, f64); WHOLE.len()],  // of properties of the whole order: number, sum, sum of squares
}
/// Properties of the whole order and their means when all orders are equally
/// likely; the last ones compare a deck with the one before it.
const WHOLE: [(&str, f64); 13] = [
    ("pairs out of the generated order", 663.0), ("places where the order falls", 25.5), ("runs of cards in their generated order", 25.5),
    ("cards in their generated place", 1.0), ("cycles", 4.538_043_950_697_449), ("neighbours of one rank", 3.0), ("neighbours of one suit", 12.0),
    ("neighbours that were neighbours, in order", 51.0 / 52.0), ("cards of the lower half in the upper half", 13.0), ("distance of the cards from their place", 901.0),
    ("cards where they were before", 1.0), ("neighbours that were neighbours before", 51.0 / 52.0), ("pairs out of the order before", 663.0),
];
impl Tally {
    fn new() -> Self { Tally { n: 0, pos: vec![0; 2704], before: vec![0; 2704], follow: vec![0; 2704], triple: vec![0; 6 * 400], even: 0, first2: vec![0; 2704], again: vec![0; 2704], sums: Default::default() } }
    fn add(&mut self, d: &[usize], prev: &[usize], triples: &[[usize; 3]], place: &[usize]) {
        self.n += 1;
        let mut at = [0usize; 52];
        for (p, &c) in d.iter().enumerate() { at[c] = p; self.pos[52 * c + p] += 1; }
        for a in 0..52 { for b in 0..a { if at[a] < at[b] { self.before[52 * a + b] += 1; } } }
        for w in d.windows(2) { self.follow[52 * w[0] + w[1]] += 1; }
        for (i, t) in triples.iter().enumerate() {
            let (x, y, z) = (at[t[0]], at[t[1]], at[t[2]]);
            let k = if x < y && y < z { 0 } else if x < z && z < y { 1 } else if y < x && x < z { 2 } else if y < z && z < x { 3 } else if z < x && x < y { 4 } else { 5 };
            self.triple[6 * i + k] += 1;
        }
        let mut seen = [false; 52];
        let mut cycles = 0;
        for s in 0..52 { if !seen[s] { cycles += 1; let mut x = s; while !seen[x] { seen[x] = true; x = d[x]; } } }
        if cycles % 2 == 0 { self.even += 1; }
        self.first2[52 * d[0] + d[1]] += 1;
        if !prev.is_empty() { for (p, &c) in prev.iter().enumerate() { self.again[52 * p + at[c]] += 1; } }
        let e: [usize; 52] = std::array::from_fn(|p| place[d[p]]);
        let mut whole = [f64::NAN; WHOLE.len()];
        let out = |e: &[usize; 52]| (0..52).map(|i| (0..i).filter(|&j| e[j] > e[i]).count()).sum::<usize>() as f64;
        let mut to = [0usize; 52];
        for (p, &x) in e.iter().enumerate() { to[x] = p; }
        let count = |f: &dyn Fn(usize) -> bool, n: usize| (0..n).filter(|&i| f(i)).count() as f64;
        whole[0] = out(&e);
        whole[1] = count(&|i| e[i] > e[i + 1], 51);
        whole[2] = count(&|i| to[i] > to[i + 1], 51);
        whole[3] = count(&|i| e[i] == i, 52);
        whole[4] = { let mut seen = [false; 52]; let mut n = 0.0; for s in 0..52 { if !seen[s] { n += 1.0; let mut x = s; while !seen[x] { seen[x] = true; x = e[x]; } } } n };
        whole[5] = count(&|i| d[i] / 4 == d[i + 1] / 4, 51);
        whole[6] = count(&|i| d[i] % 4 == d[i + 1] % 4, 51);
        whole[7] = count(&|i| e[i] + 1 == e[i + 1], 51);
        whole[8] = count(&|i| e[i] >= 26, 26);
        whole[9] = (0..52).map(|i| e[i].abs_diff(i)).sum::<usize>() as f64;
        if !prev.is_empty() {
            let r: [usize; 52] = std::array::from_fn(|p| at[prev[p]]);
            whole[10] = count(&|i| r[i] == i, 52);
            whole[11] = count(&|i| r[i] + 1 == r[i + 1], 51);
            whole[12] = out(&r);
        }
        for (t, x) in self.sums.iter_mut().zip(whole) { if !x.is_nan() { t.0 += 1.0; t.1 += x; t.2 += x * x; } }
    }
    fn join(&mut self, o: &Tally) {
        self.n += o.n;
        for (a, b) in self.sums.iter_mut().zip(&o.sums) { a.0 += b.0; a.1 += b.1; a.2 += b.2; }
        self.even += o.even;
        for (a, b) in [(&mut self.pos, &o.pos), (&mut self.before, &o.before), (&mut self.follow, &o.follow), (&mut self.triple, &o.triple), (&mut self.first2, &o.first2), (&mut self.again, &o.again)] {
            for (x, y) in a.iter_mut().zip(b) { *x += y; }
        }
    }
    /// the largest deviation of each kind, in standard deviations, and where
    fn judge(&self, c: &Ctx, what: &str, follows: bool) {
        let n = self.n as f64;
        let z = |x: u64, p: f64| (x as f64 - n * p) / (n * p * (1.0 - p)).sqrt();
        let mut worst: Vec<(String, f64, Value)> = vec![];
        let mut scan = |kind: &str, it: &mut dyn Iterator<Item = (f64, Value)>| {
            let mut m = (0.0, Value::Null);
            for (v, w) in it { if v.abs() > f64::abs(m.0) { m = (v, w); } }
            worst.push((kind.into(), m.0, m.1));
        };
        scan("card at a position", &mut (0..2704).map(|i| (z(self.pos[i], 1.0 / 52.0), json!({"card": name(i / 52), "position": i % 52, "times": self.pos[i]}))));
        scan("order of two cards", &mut (0..2704).filter(|i| i / 52 > i % 52).map(|i| (z(self.before[i], 0.5), json!({"first": name(i / 52), "second": name(i % 52), "times": self.before[i]}))));
        scan("one card right after another", &mut (0..2704).filter(|i| i / 52 != i % 52).map(|i| (z(self.follow[i], 1.0 / 52.0), json!({"card": name(i / 52), "next": name(i % 52), "times": self.follow[i]}))));
        scan("order of three cards", &mut (0..self.triple.len()).map(|i| (z(self.triple[i], 1.0 / 6.0), json!({"triple": i / 6, "pattern": i % 6, "times": self.triple[i]}))));
        scan("even or odd permutation", &mut std::iter::once((z(self.even, 0.5), json!({"even": self.even}))));
        scan("two cards on top", &mut (0..2704).filter(|i| i / 52 != i % 52).map(|i| (z(self.first2[i], 1.0 / 2652.0), json!({"first": name(i / 52), "second": name(i % 52), "times": self.first2[i]}))));
        if follows { scan("where the previous deck's cards go", &mut (0..2704).map(|i| (z(self.again[i], 1.0 / 52.0), json!({"from": i / 52, "to": i % 52, "times": self.again[i]})))); }
        // all cells of a table together: 51 squared degrees of freedom
        let together = |t: &[u64], n: f64| { let q: f64 = t.iter().map(|&x| (x as f64 - n / 52.0).powi(2)).sum::<f64>() * 51.0 / n; (q - 2601.0) / (2.0f64 * 2601.0).sqrt() };
        worst.push(("cards at positions, together".into(), together(&self.pos, n), Value::Null));
        if follows { worst.push(("where the previous deck's cards go, together".into(), together(&self.again, self.again.iter().sum::<u64>() as f64 / 52.0), Value::Null)); }
        for ((what, mean), (n, a, b)) in WHOLE.iter().zip(&self.sums) {
            if *n < 1000.0 { continue; }
            let m = a / n;
            let sd = (b / n - m * m).max(1e-9).sqrt();
            worst.push((what.to_string(), (m - mean) / (sd / n.sqrt()), json!({"mean": m, "expected": mean})));
        }
        for (kind, v, at) in &worst {
            c.rep.check(v.abs() < 7.5, || json!({"what": "shuffles favour something", "shuffles": what, "number": self.n, "statistic": kind, "deviations": format!("{:.1}", v), "at": at}));
        }
        c.rep.note(&format!("largest deviations, {}", what), json!(worst.iter().map(|(k, v, _)| (k.clone(), format!("{:.2}", v))).collect::<std::collections::BTreeMap<_, _>>()));
    }
}

pub fn c14(c: &Ctx, dir: &str) {
    // many kinds of generator
    par(if c.thorough { 20_000 } else { 2_000 }, c.rep, |w, t| {
        beat(w, t as u64);
        let s = t as u64;
        reproducible(c, "StdRng", s, StdRng::seed_from_u64(s), true);
        reproducible(c, "own generator", s, Own(Rng::new(c.seed, s), 0), true);
        reproducible(c, "StepRng", s, StepRng::new(s.wrapping_mul(0x9E3779B97F4A7C15), 0x5851F42D4C957F2D | 1), false);
        let mut seed = [0u8; 32];
        for (i, b) in (t as u32 + 1).to_le_bytes().into_iter().enumerate() { seed[(t as usize + i) % 32] = b; }
        reproducible(c, "StdRng from bytes", s, StdRng::from_seed(seed), true);
        if t < 200 {
            let decks = guard(|| [ids(&poker::deck::shuffled_with(&mut OsRng)), ids(&poker::deck::shuffled_with(&mut rand::thread_rng())), ids(&poker::deck::shuffled())]);
            c.rep.check(matches!(&decks, Ok(d) if d.iter().all(|d| is_deck(d))), || json!({"what": "a shuffled deck is no deck", "generator": "system", "got": format!("{:?}", decks)}));
        }
    });
    // generators that shuffle and evaluate when asked for bits, and generators
    // that fail: the deck is that of the bits given, and later ones are too
    par(if c.thorough { 20_000 } else { 2_000 }, c.rep, |w, t| {
        beat(w, t as u64);
        let s = 140_000 + t as u64;
        let plain = guard(|| ids(&poker::deck::shuffled_with(&mut StdRng::seed_from_u64(s))));
        let busy = guard(|| ids(&poker::deck::shuffled_with(&mut Busy(StdRng::seed_from_u64(s), StdRng::seed_from_u64(!s), 0, u64::MAX))));
        c.rep.check(plain.is_ok() && plain == busy, || json!({"what": "a generator that itself shuffles when asked for bits leads to another deck", "seed": s, "plain": format!("{:?}", plain), "busy": format!("{:?}", busy)}));
        let broken = guard(|| ids(&poker::deck::shuffled_with(&mut Busy(StdRng::seed_from_u64(s), StdRng::seed_from_u64(!s), 0, t as u64 % 23))));
        c.rep.check(match &broken { Err(p) => p.contains("this generator fails"), Ok(d) => is_deck(d) }, || json!({"what": "a generator that fails leads to something else than its own failure", "seed": s, "got": format!("{:?}", broken)}));
        let again = guard(|| ids(&poker::deck::shuffled_with(&mut StdRng::seed_from_u64(s))));
        c.rep.check(plain == again && matches!(&again, Ok(d) if is_deck(d)), || json!({"what": "a shuffle after a generator failed is different", "seed": s, "before": format!("{:?}", plain), "after": format!("{:?}", again)}));
        let default = guard(|| ids(&poker::deck::shuffled()));
        c.rep.check(matches!(&default, Ok(d) if is_deck(d)), || json!({"what": "a default shuffle after a generator failed is no deck", "got": format!("{:?}", default)}));
    });
    // nearby generator states give unrelated decks: seeds in a row
    let n = if c.thorough { 3_000_000u64 } else { 320_000 };
    let mut rng = Rng::new(c.seed, 14);
    let triples: Vec<[usize; 3]> = (0..400).map(|_| { let mut d: Vec<usize> = (0..52).collect(); rng.shuffle(&mut d); [d[0], d[1], d[2]] }).collect();
    let mut place = vec![0usize; 52];
    for (p, x) in poker::deck::generate().take(52).enumerate() { place[number_of(x)] = p; }
    for (what, kind) in [("one generator, one after another", 0), ("generators with seeds in a row", 1), ("the default generator", 2), ("a generator of our own", 3)] {
        let total = Mutex::new(Tally::new());
        let hashes: Mutex<HashSet<u128>> = Mutex::new(HashSet::new());
        let clash = Mutex::new(Value::Null);
        let parts = 64;
        par(parts, c.rep, |w, part| {
            let mut t = Tally::new();
            let mut hs: Vec<u128> = vec![];
            let mut std = StdRng::seed_from_u64(c.seed.wrapping_mul(1_000_003) + part as u64);
            let mut own = Own(Rng::new(c.seed, 14_000 + part as u64), 0);
            let mut prev: Vec<usize> = vec![];
            for i in 0..n / parts as u64 {
                beat(w, i);
                let d = guard(|| match kind {
                    0 => poker::deck::shuffled_with(&mut std),
                    1 => poker::deck::shuffled_with(&mut StdRng::seed_from_u64(part as u64 * (n / parts as u64) + i)),
                    2 => poker::deck::shuffled(),
                    _ => poker::deck::shuffled_with(&mut own),
                });
                let d = match d { Ok(d) => ids(&d), Err(p) => { c.rep.violation(json!({"what": "shuffling panicked", "shuffles": what, "panic": p})); break; } };
                if !is_deck(&d) { c.rep.violation(json!({"what": "a shuffled deck is no deck", "shuffles": what, "numbers": d})); break; }
                t.add(&d, if kind == 1 { &[] } else { &prev }, &triples, &place);
                hs.push(d.iter().fold(7u128, |h, &x| h.wrapping_mul(0x2545F4914F6CDD1D_9E3779B97F4A7C15).rotate_left(29) ^ x as u128));
                prev = d;
            }
            total.lock().unwrap().join(&t);
            let mut g = hashes.lock().unwrap();
            for h in hs { if !g.insert(h) { *clash.lock().unwrap() = json!(h.to_string()); } }
        });
        if c.rep.stop() { return; }
        let t = total.into_inner().unwrap();
        t.judge(c, what, kind != 1);
        let distinct = hashes.into_inner().unwrap().len() as u64;
        c.rep.check(distinct == t.n, || json!({"what": "separate shuffles give the same deck", "shuffles": what, "number": t.n, "distinct": distinct}));
        c.rep.add(t.n);
    }
    c.rep.note("shuffles_per_kind", n);
    // default shuffles of separate processes and threads
    let exe = std::env::current_exe().unwrap();
    let mut decks: Vec<String> = vec![];
    for i in 0..24 {
        let out = format!("{}/shuffle-{}.json", dir, i);
        let st = std::process::Command::new(&exe).args(["shuffle-once", "--out", &out]).status().expect("cannot start a process");
        match std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
            Some(v) => for d in v["notes"]["decks"].as_array().into_iter().flatten() { decks.push(d.as_str().unwrap().into()) },
            None => c.rep.violation(json!({"what": "a process died shuffling", "status": format!("{:?}", st)})),
        }
        let _ = std::fs::remove_file(&out);
    }
    let set: HashSet<&String> = decks.iter().collect();
    c.rep.check(set.len() == decks.len(), || json!({"what": "default shuffles of separate processes or threads are the same", "decks": decks.len(), "distinct": set.len()}));
    c.rep.sample(json!({"default_shuffle_of_a_process": decks.first()}));
    c.rep.add(decks.len() as u64);
}
pub fn once(c: &Ctx) {
    let mut v: Vec<String> = vec![names_of(&poker::deck::shuffled()).join(" "), names_of(&poker::deck::shuffled()).join(" ")];
    for _ in 0..3 { v.push(std::thread::spawn(|| names_of(&poker::deck::shuffled()).join(" ")).join().unwrap_or_default()); }
    c.rep.note("decks", json!(v));
}
