//! C25: what is still held once calls are over and their results dropped:
//! memory (counted by the allocator), threads, open files; and what was
//! written to the standard output and error.
use pkh::table::*;
use pkh::util::*;
use poker::{box_cards, card, cards, deck, Card, Eval, Evaluator, ParseCardError};
use rand::{rngs::StdRng, RngCore, SeedableRng};
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hint::black_box;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::sync::Arc;

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
// SAFETY: passes everything on to the system's allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

fn hand(rng: &mut Rng, n: usize) -> Vec<Card> {
    let mut all: [usize; 52] = std::array::from_fn(|i| i);
    (0..n).map(|i| { let j = rng.range(i, 51); all.swap(i, j); card(all[i]) }).collect()
}
fn text(rng: &mut Rng) -> String {
    if rng.chance(1, 3) { return name(rng.below(52)) }
    (0..rng.range(0, 40)).map(|_| *rng.pick(&['A', 's', 'T', '1', '0', 'x', 'é', '♠', '9', ' ', 'h'])).collect()
}
/// A container, source or writer of the user's that fails.
struct Fails(#[allow(dead_code)] Vec<Card>);
impl AsRef<[Card]> for Fails { fn as_ref(&self) -> &[Card] { panic!("no cards") } }
struct FailsText(String, bool);
impl AsRef<str> for FailsText { fn as_ref(&self) -> &str { if self.1 { panic!("no text") } else { &self.0 } } }
struct FailsWriting(String, usize);
impl std::fmt::Write for FailsWriting {
    fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0.len() + s.len() > self.1 { Err(std::fmt::Error) } else { self.0.push_str(s); Ok(()) } }
}
struct FailsDrawing(StdRng, usize);
impl RngCore for FailsDrawing {
    fn next_u32(&mut self) -> u32 { if self.1 == 0 { panic!("no bits") } self.1 -= 1; self.0.next_u32() }
    fn next_u64(&mut self) -> u64 { if self.1 == 0 { panic!("no bits") } self.1 -= 1; self.0.next_u64() }
    fn fill_bytes(&mut self, b: &mut [u8]) { self.0.fill_bytes(b) }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> { self.0.try_fill_bytes(b) }
}

struct User { ev: Arc<Evaluator>, rng: Rng }
const KINDS: [(&str, usize); 19] = [
    ("evaluate five", 1_000_000), ("evaluate six to nine", 150_000), ("evaluate ten to sixteen", 5_000), ("evaluate most of the deck", 20),
    ("evaluate in containers", 100_000), ("refuse hands", 100_000), ("say why hands are refused", 30_000), ("compare and name", 1_000_000),
    ("parse one", 200_000), ("parse batches", 60_000), ("leave batches", 150_000), ("walk decks", 150_000), ("shuffle", 60_000), ("construct", 300_000),
    ("make evaluators", 1_000), ("clone evaluators", 1_500), ("fail half-way", 30_000), ("evaluate in threads", 2_000), ("everything in threads", 1_000),
];
fn calls(u: &mut User, kind: &str, n: usize) {
    let User { ev, rng } = u;
    match kind {
        "evaluate five" => for _ in 0..n { black_box(ev.evaluate(hand(rng, 5)).ok()); },
        "evaluate six to nine" => for _ in 0..n { let k = rng.range(6, 9); black_box(ev.evaluate(hand(rng, k)).ok()); },
        "evaluate ten to sixteen" => for _ in 0..n { let k = rng.range(10, 16); black_box(ev.evaluate(hand(rng, k)).ok()); },
        "evaluate most of the deck" => for _ in 0..n { let k = rng.range(24, 34); black_box(ev.evaluate(hand(rng, k)).ok()); },
        "evaluate in containers" => for _ in 0..n {
            let k = rng.range(5, 8);
            let h = hand(rng, k);
            black_box((ev.evaluate(&h).ok(), ev.evaluate(&h[..]).ok(), ev.evaluate(h.clone().into_boxed_slice()).ok(), ev.evaluate([h[0], h[1], h[2], h[3], h[4]]).ok(), ev.evaluate(h.as_slice()).ok(), ev.evaluate(Arc::<[Card]>::from(h)).ok()));
        },
        "refuse hands" | "say why hands are refused" => for _ in 0..n {
            let k = rng.range(0, 60);
            let h: Vec<Card> = if rng.chance(1, 4) { hand(rng, k.min(4)) } else { (0..k).map(|_| card(rng.below(52))).collect() };
            if let Err(e) = if h.len() > 9 && h.iter().collect::<HashSet<_>>().len() == h.len() { ev.evaluate(&h[..5]) } else { ev.evaluate(&h) } {
                if kind != "refuse hands" { black_box((e.to_string(), format!("{:?}", e), e.clone() == e)); }
            }
        },
        "compare and name" => {
            let es: Vec<Eval> = (0..n.min(200)).filter_map(|i| ev.evaluate(hand(rng, 5 + i % 2)).ok()).collect();
            for _ in 0..n / 20 {
                let (a, b) = (*rng.pick(&es), *rng.pick(&es));
                black_box((a < b, a == b, a.max(b), a.is_better_than(b), a.class().to_string(), a.to_string(), format!("{:?}", b), a.is_royal_flush()));
            }
            let mut s = es.clone();
            s.sort();
            black_box(s.iter().collect::<HashSet<_>>().len());
        }
        "parse one" => for _ in 0..n {
            let t = text(rng);
            match t.parse::<Card>() { Ok(c) => { black_box((c.to_string(), c.rank_suit_string(), format!("{:?}", c))); } Err(e) => { black_box((e.to_string(), format!("{:?}", e), e.clone() == e)); } }
            let mut cs = t.chars();
            black_box(Card::try_from_chars(cs.next().unwrap_or('?'), cs.next().unwrap_or('?')).ok());
        },
        "parse batches" => for _ in 0..n {
            let ts: Vec<String> = (0..rng.range(0, 12)).map(|_| text(rng)).collect();
            black_box(Card::parse_to_iter(&ts).collect::<Vec<Result<Card, ParseCardError>>>());
            black_box(Card::parse_to_iter(&ts).try_collect::<Vec<Card>>().ok());
            black_box(cards!(ts.join(" ")).try_collect::<Box<[Card]>>().map_err(|e| e.to_string()).ok());
            black_box(Card::parse_to_iter(ts).count());
        },
        "leave batches" => for _ in 0..n {
            let ts: Vec<String> = (0..rng.range(0, 12)).map(|_| text(rng)).collect();
            let mut i = Card::parse_to_iter(ts);
            for _ in 0..rng.below(5) { let k = rng.below(3); black_box(i.nth(k)); }
            black_box(i.size_hint());
        },
        "walk decks" => for _ in 0..n {
            let mut a = deck::generate();
            let mut b = deck::generate();
            for _ in 0..rng.below(8) { let k = rng.below(20); black_box((a.nth(k), b.next())); }
            black_box((a.collect::<Vec<Card>>(), b.size_hint(), deck::generate().collect::<HashSet<Card>>().len()));
        },
        "shuffle" => for _ in 0..n {
            let mut r = StdRng::seed_from_u64(rng.next());
            black_box((deck::shuffled(), deck::shuffled_with(&mut r), deck::shuffled_with(&mut r), deck::shuffled_with(&mut rand::thread_rng())));
        },
        "construct" => for _ in 0..n {
            let k = rng.range(1, 7);
            let (a, b, s) = (hand(rng, k), cards!(Ace of Spades, Two of Clubs).len() as u8, name(rng.below(52)));
            let c = box_cards!(a, a, [card!(Ten of Hearts)]);
            black_box((box_cards!(c, a), card!(s).ok(), cards!("As", "Kd", s.as_str()).try_collect::<Vec<Card>>().ok(), cards!("As Kd zz").try_collect::<Vec<Card>>().err(), b));
        },
        "make evaluators" => for i in 0..n {
            let e = if i % 2 == 0 { Evaluator::new() } else { Evaluator::default() };
            black_box((e.evaluate(hand(rng, 5 + i % 3)).ok(), &e == &**ev));
        },
        "clone evaluators" => for i in 0..n {
            let e = Evaluator::clone(ev);
            let mut f = e.clone();
            f.clone_from(&e);
            drop(e);
            black_box(f.evaluate(hand(rng, 5 + i % 3)).ok());
        },
        "fail half-way" => for i in 0..n {
            black_box(guard(|| ev.evaluate(Fails(hand(rng, 5))).is_ok()).is_err());
            let ts: Vec<FailsText> = (0..6).map(|_| FailsText(text(rng), rng.chance(1, 4))).collect();
            black_box(guard(|| Card::parse_to_iter(ts).try_collect::<Vec<Card>>().is_ok()).is_err());
            let t = FailsText("As".into(), true);
            black_box(guard(|| Card::parse_to_iter([FailsText("Kd".into(), false), t]).collect::<Vec<_>>().len()).is_err());
            if i % 8 == 0 { black_box(guard(|| deck::shuffled_with(&mut FailsDrawing(StdRng::seed_from_u64(i as u64), rng.below(60)))).is_err()); }
            let mut w = FailsWriting(String::new(), rng.below(30));
            let c = card(rng.below(52));
            black_box((write!(w, "{} {}", c, ev.evaluate([c, c]).unwrap_err()).is_err(), write!(w, "{}", Eval::BEST).is_err()));
        },
        "evaluate in threads" => for _ in 0..n {
            let e = ev.clone();
            let h: Vec<Vec<Card>> = (5..8).map(|k| hand(rng, k)).collect();
            black_box(std::thread::spawn(move || h.iter().filter(|x| e.evaluate(x).is_ok()).count()).join().ok());
        },
        "everything in threads" => {
            // several at once, each with its own user of the library
            let mut left = n;
            while left > 0 {
                let ts: Vec<_> = (0..left.min(8)).map(|_| {
                    let mut u = User { ev: ev.clone(), rng: Rng(rng.next()) };
                    std::thread::spawn(move || for (k, m) in KINDS {
                        if !k.ends_with("threads") && !k.ends_with("deck") && !k.ends_with("evaluators") { calls(&mut u, k, (m / 100_000).clamp(2, 4)) }
                    })
                }).collect();
                left -= ts.len();
                for t in ts { black_box(t.join().ok()); }
            }
        }
        _ => unreachable!("{}", kind),
    }
}

fn entries(d: &str) -> usize { std::fs::read_dir(d).map(|d| d.count()).unwrap_or(0) }
/// A finished thread may be listed for a moment.
fn tasks() -> usize {
    for _ in 0..200 {
        if entries("/proc/self/task") == 1 { return 1 }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    entries("/proc/self/task")
}

fn main() {
    // out trace seed rounds share shares
    let args: Vec<String> = std::env::args().collect();
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    let (rounds, share, shares) = (num(4) as usize, num(5) as usize, num(6) as usize);
    std::panic::set_hook(Box::new(|_| {}));
    let rep = Report::new(&args[1]);
    let written = || -> u64 { [1, 2].iter().map(|f| std::fs::metadata(format!("/proc/self/fd/{}", f)).map(|m| m.len()).unwrap_or(0)).sum() };
    let mut looks: Vec<(Option<&'static str>, i64, usize, usize, u64)> = Vec::with_capacity(10_000);
    let mut u = User { ev: Arc::new(Evaluator::new()), rng: Rng::new(num(3), 25 + share as u64) };
    let mine: Vec<(&'static str, usize)> = KINDS.iter().enumerate().filter(|(i, _)| i % shares == share || shares == 1).map(|(_, k)| *k).collect();
    let mut made = 0;
    let mut what = |kind: Option<&'static str>| {
        let look = if kind.is_some() { (kind, 0, 0, 0, 0) } else { (None, LIVE.load(Relaxed), tasks(), entries("/proc/self/fd"), written()) };
        assert!(looks.len() < looks.capacity());
        looks.push(look);
    };
    let done = guard(|| {
        // each kind for itself, then all in turn
        for &(k, n) in &mine {
            for _ in 0..=rounds {
                what(Some(k));
                calls(&mut u, k, n);
                made += n as u64;
                what(None);
            }
        }
        for _ in 0..rounds {
            for &(k, n) in &mine {
                what(Some(k));
                calls(&mut u, k, n / 8 + 1);
                made += n as u64 / 8 + 1;
            }
            what(None);
        }
    });
    if let Err(p) = done { rep.violation(json!({"what": "the library panicked", "message": p})); }
    rep.add(made);
    let lines: Vec<String> = looks.iter().map(|&(k, m, t, f, w)| match k {
        Some(k) => json!({"op": "calls", "kind": k}).to_string(),
        None => json!({"op": "look", "out": {"memory": m, "threads": t, "files": f, "written": w}}).to_string(),
    }).collect();
    std::fs::write(&args[2], lines.join("\n") + "\n").expect("cannot write the trace");
    rep.sample(json!({"first": lines.get(..2), "last": lines.get(lines.len().saturating_sub(2)..)}));
    rep.write();
    std::process::exit(if rep.nviol.load(Relaxed) > 0 { 1 } else { 0 });
}
