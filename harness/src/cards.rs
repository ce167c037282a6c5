//! Cards, their texts, batches, decks and error messages: C09..C13, C15, and
//! the run-time half of C16.
use crate::calls::*;
use crate::session::*;
use crate::table::*;
use crate::util::*;
use poker::{Card, EvalError, Evaluator, ParseCardError, Rank, Suit};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};

/// The table CardTable.tla exports, card number order.
pub struct Row {
    pub name: String,
    pub display: String,
    pub int: i32,
    pub rank: usize,
    pub suit: usize,
    pub rankchar: char,
    pub suitchar: char,
    pub symbol: char,
}
pub fn load_cards(path: &str) -> Vec<Row> {
    let ch = |v: &Value| v.as_str().unwrap().chars().next().unwrap();
    let rows: Vec<Row> = std::fs::read_to_string(path).expect("cannot read the card table").lines().map(|l| {
        let v: Value = serde_json::from_str(l).expect("bad card line");
        Row {
            name: v["name"].as_str().unwrap().into(),
            display: v["display"].as_str().unwrap().into(),
            int: v["int"].as_i64().unwrap() as i32,
            rank: RANK_VARIANTS.iter().position(|n| v["rank"] == *n).unwrap(),
            suit: SUIT_VARIANTS.iter().position(|n| v["suit"] == *n).unwrap(),
            rankchar: ch(&v["rankchar"]),
            suitchar: ch(&v["suitchar"]),
            symbol: ch(&v["suitsymbol"]),
        }
    }).collect();
    assert_eq!(rows.len(), 52, "card table incomplete");
    rows
}

fn h64<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// Every comparison form of two values says `want`.
fn forms<T: Ord + Clone + std::fmt::Debug>(a: &T, b: &T) -> Vec<Ordering> {
    let of = |lt: bool, gt: bool| if lt { Ordering::Less } else if gt { Ordering::Greater } else { Ordering::Equal };
    vec![
        a.cmp(b),
        a.partial_cmp(b).unwrap_or(Ordering::Equal),
        b.cmp(a).reverse(),
        of(a < b, a > b),
        of(!(a >= b), !(a <= b)),
        of(b > a, b < a),
        std::cmp::Reverse(b).cmp(&std::cmp::Reverse(a)),
        (a, 0).cmp(&(b, 0)),
        [a.clone()].cmp(&[b.clone()]),
        Some(a).cmp(&Some(b)),
    ]
}

pub fn c09(c: &Ctx, rows: &[Row]) {
    let cards: Vec<Card> = rows.iter().map(|r| Card::new(RANKS[r.rank], SUITS[r.suit])).collect();
    for (i, r) in rows.iter().enumerate() {
        let x = cards[i];
        c.rep.check(x.rank() == RANKS[r.rank] && x.suit() == SUITS[r.suit], || json!({"what": "a card does not report its rank and suit", "card": r.name, "rank": format!("{:?}", x.rank()), "suit": format!("{:?}", x.suit())}));
        c.rep.check(x.unique_integer() == r.int, || json!({"what": "a card's integer has another layout", "card": r.name, "got": x.unique_integer(), "expected": r.int}));
        let n = x.unique_integer();
        c.rep.check(((n >> 16) & 0x1fff).count_ones() == 1 && ((n >> 12) & 0xf).count_ones() == 1 && (n >> 8) & 0xf == r.rank as i32 && n & 0xff == PRIMES[r.rank] && n >> 29 == 0, || json!({"what": "a field of the integer is wrong", "card": r.name, "got": n}));
        if i % 11 == 0 { c.rep.sample(json!({"card": r.name, "int": n, "rank": format!("{:?}", x.rank()), "suit": format!("{:?}", x.suit())})); }
    }
    const PRIMES: [i32; 13] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];
    // all pairs, in every form
    for (i, a) in cards.iter().enumerate() {
        for (j, b) in cards.iter().enumerate() {
            let same = i == j;
            let b2 = Card::new(b.rank(), b.suit());
            c.rep.check((a == b) == same && (a != b) != same && (*a == b2) == same && (a.unique_integer() == b.unique_integer()) == same, || json!({"what": "equality of cards", "a": rows[i].name, "b": rows[j].name}));
            c.rep.check((h64(a) == h64(&b2)) == same, || json!({"what": "hashing of cards disagrees with equality", "a": rows[i].name, "b": rows[j].name}));
            let want = rows[i].rank.cmp(&rows[j].rank);
            c.rep.check(forms(a, b).iter().all(|o| *o == want), || json!({"what": "a comparison form does not go by rank", "a": rows[i].name, "b": rows[j].name, "expected": format!("{:?}", want), "forms": format!("{:?}", forms(a, b))}));
            let (mx, mn) = (*a.max(b), *a.min(b));
            let (hi, lo) = if want == Ordering::Less { (b.rank(), a.rank()) } else { (a.rank(), b.rank()) };
            c.rep.check(mx.rank() == hi && mn.rank() == lo, || json!({"what": "max or min of two cards", "a": rows[i].name, "b": rows[j].name}));
        }
    }
    for i in 0..13 {
        for j in 0..13 {
            let (a, b) = (RANKS[i], RANKS[j]);
            c.rep.check(forms(&a, &b).iter().all(|o| *o == i.cmp(&j)) && (a == b) == (i == j) && (a != b) == (i != j) && (h64(&a) == h64(&b)) == (i == j) && a.max(b) == RANKS[i.max(j)] && a.min(b) == RANKS[i.min(j)], || json!({"what": "ranks are not ordered from two to ace", "a": RANK_VARIANTS[i], "b": RANK_VARIANTS[j]}));
        }
    }
    for i in 0..4 {
        for j in 0..4 {
            c.rep.check((SUITS[i] == SUITS[j]) == (i == j) && (SUITS[i] != SUITS[j]) == (i != j) && (h64(&SUITS[i]) == h64(&SUITS[j])) == (i == j), || json!({"what": "suits not told apart", "a": SUIT_VARIANTS[i], "b": SUIT_VARIANTS[j]}));
        }
    }
    let set: HashSet<Card> = cards.iter().copied().collect();
    c.rep.check(set.len() == 52, || json!({"what": "a set of all cards", "size": set.len()}));
    let map: HashMap<Card, usize> = cards.iter().copied().zip(0..).collect();
    c.rep.check((0..52).all(|i| map.get(&cards[i]) == Some(&i)), || json!({"what": "cards as keys of a map"}));
    // sorting orders by rank and, being stable, keeps equal ranks in place
    let mut rng = Rng::new(c.seed, 9);
    for t in 0..if c.thorough { 20000 } else { 2000 } {
        let mut v: Vec<usize> = (0..52).collect();
        rng.shuffle(&mut v);
        v.truncate(rng.range(0, 52));
        let mut s: Vec<Card> = v.iter().map(|&i| cards[i]).collect();
        match t % 4 {
            0 => s.sort(),
            1 => s.sort_by(|a, b| a.partial_cmp(b).unwrap()),
            2 => s.sort_by_key(|x| *x),
            _ => { s.sort_by(|a, b| b.cmp(a)); s.reverse(); s.sort() }
        }
        let ok = s.windows(2).all(|w| w[0].rank() <= w[1].rank() && w[0] <= w[1]) && s.iter().map(|x| number_of(*x)).collect::<BTreeSet<_>>() == v.iter().copied().collect();
        c.rep.check(ok, || json!({"what": "sorting cards", "input": names(&v), "sorted": names_of(&s)}));
        if t % 4 < 3 {
            v.sort_by_key(|i| i / 4);
            c.rep.check(v.iter().map(|&i| cards[i]).eq(s.iter().copied()), || json!({"what": "a stable sort moved cards of equal rank", "expected": names(&v), "sorted": names_of(&s)}));
        }
    }
}

/// What the specification says about a text, by its classes of characters.
pub struct Alphabet {
    pub rank: HashMap<char, usize>,
    pub suit: HashMap<char, usize>,
}
impl Alphabet {
    pub fn new(rows: &[Row]) -> Self { Alphabet { rank: rows.iter().map(|r| (r.rankchar, r.rank)).collect(), suit: rows.iter().map(|r| (r.suitchar, r.suit)).collect() } }
    pub fn parse(&self, t: &str) -> Result<usize, ParseCardError> {
        let ch: Vec<char> = t.chars().take(3).collect();
        if ch.len() != 2 { return Err(ParseCardError::InvalidLength { original_input: t.into() }); }
        self.pair(ch[0], ch[1], Some(t))
    }
    pub fn pair(&self, a: char, b: char, whole: Option<&str>) -> Result<usize, ParseCardError> {
        match (self.rank.get(&a), self.suit.get(&b)) {
            (None, _) => Err(ParseCardError::InvalidRank { original_input: whole.map(String::from).unwrap_or(a.to_string()), incorrect_char: a }),
            (_, None) => Err(ParseCardError::InvalidSuit { original_input: whole.map(String::from).unwrap_or(b.to_string()), incorrect_char: b }),
            (Some(r), Some(s)) => Ok(4 * r + s),
        }
    }
}
/// Message of a refusal, from the specification's templates.
fn message(e: &ParseCardError, n: usize) -> String {
    match e {
        ParseCardError::InvalidLength { original_input } => format!("Error parsing input '{}' as a Card: Found input of length {}, expected 2", original_input, n),
        ParseCardError::InvalidRank { original_input, incorrect_char } => format!("Error parsing input '{}' as a Card: Invalid rank character '{}', expected one of [23456789TJQKA]", original_input, incorrect_char),
        ParseCardError::InvalidSuit { original_input, incorrect_char } => format!("Error parsing input '{}' as a Card: Invalid suit character '{}', expected one of [chsd]", original_input, incorrect_char),
    }
}
fn every_char() -> impl Iterator<Item = char> { (0..=0x10FFFFu32).filter_map(char::from_u32) }

/// Texts that are tried besides every single character in every place.
fn texts(c: &Ctx, rows: &[Row], mut f: impl FnMut(&str)) {
    let mut rng = Rng::new(c.seed, 10);
    let near: Vec<char> = "23456789TJQKAchsd10tjqkaCHSD \t\n\r\0.,;:-_+*/\\|'\"()[]{}<>!?#%&=@^~`xXyzé♣♥♠♦♤♡♢♧ＴＡｃ２²Ⅹ\u{301}\u{200b}\u{feff}\u{202e}🂡🂮😀\u{1d7da}".chars().collect();
    f("");
    for a in &near { f(&a.to_string()); }
    for a in &near { for b in &near { f(&format!("{}{}", a, b)); } }
    let some: Vec<char> = "2TAchs1tC é♣🂡".chars().collect();
    for a in &some { for b in &some { for d in &some { f(&format!("{}{}{}", a, b, d)); } } }
    for r in rows {
        for w in &near { f(&format!("{}{}", w, r.name)); f(&format!("{}{}", r.name, w)); f(&format!("{}{}{}", r.rankchar, w, r.suitchar)); }
        for r2 in rows { f(&format!("{}{}", r.name, r2.name)); f(&format!("{} {}", r.name, r2.name)); }
        f(&r.display);
        f(&format!("{}{}", r.suitchar, r.rankchar));
        f(&format!("{}{}", r.rankchar, r.symbol));
        f(&r.name.to_lowercase());
        f(&r.name.to_uppercase());
        f(&format!("10{}", r.suitchar));
    }
    // lengths that a narrow counter would take for two
    for n in (0..40).chain([255, 256, 257, 258, 259, 511, 513, 514, 515, 1026, 65535, 65536, 65537, 65538, 65539, 131074]) {
        f(&"A".repeat(n));
        f(&"As".repeat(n));
        f(&format!("As{}", " ".repeat(n)));
        f(&format!("{}As", "\0".repeat(n)));
        f(&"é".repeat(n));
        f(&format!("A{}", "s".repeat(n)));
        f(&format!("{}s", "A".repeat(n)));
    }
    for _ in 0..if c.thorough { 2_000_000 } else { 200_000 } {
        let n = [0, 1, 2, 2, 2, 3, 4, 6][rng.below(8)];
        let t: String = (0..n).map(|_| match rng.below(5) {
            0 | 1 => near[rng.below(near.len())],
            2 => char::from_u32(rng.below(128) as u32).unwrap(),
            3 => char::from_u32(rng.below(0xD800) as u32).unwrap(),
            _ => char::from_u32(0xE000 + rng.below(0x10FFFF - 0xE000) as u32).unwrap(),
        }).collect();
        f(&t);
    }
}

/// C10 (which = 10): what is accepted, and round trips.  C11: the refusals.
fn text_sweep(c: &Ctx, rows: &[Row], which: usize) {
    let al = Alphabet::new(rows);
    let kind = |e: &ParseCardError| -> Value { json!(format!("{:?}", e)) };
    // one text
    let judge = |t: &str| {
        let want = al.parse(t);
        let got = guard(|| t.parse::<Card>());
        c.rep.add(1);
        let bad = match (&got, &want) {
            (Err(_), _) => true,
            (Ok(Ok(g)), Ok(w)) => number_of(*g) != *w,
            (Ok(Ok(_)), Err(_)) => true,
            (Ok(Err(_)), Ok(_)) => which == 10,
            (Ok(Err(g)), Err(w)) => which == 11 && (g != w || g.to_string() != message(w, t.chars().count())),
        };
        // an accepted text that should be refused (or the reverse) is C10's
        let mine = which == 10 || !matches!(&got, Ok(Ok(_))) || want.is_err();
        if bad && mine {
            let short: String = t.chars().take(40).collect();
            c.rep.violation(json!({"what": if which == 10 { "a text is accepted or refused wrongly" } else { "a refusal does not report what was wrong" }, "text": short, "characters": t.chars().count(),
                "got": match &got { Ok(Ok(x)) => json!(name_of(*x)), Ok(Err(e)) => json!({"error": kind(e), "message": e.to_string()}), Err(p) => json!({"panic": p}) },
                "expected": match &want { Ok(n) => json!(name(*n)), Err(e) => json!({"error": kind(e), "message": message(e, t.chars().count())}) }}));
        }
    };
    let judge_pair = |a: char, b: char| {
        let want = al.pair(a, b, None);
        let got = guard(|| Card::try_from_chars(a, b));
        c.rep.add(1);
        let bad = match (&got, &want) {
            (Err(_), _) => true,
            (Ok(Ok(g)), Ok(w)) => number_of(*g) != *w,
            (Ok(Ok(_)), Err(_)) => true,
            (Ok(Err(_)), Ok(_)) => which == 10,
            (Ok(Err(g)), Err(w)) => which == 11 && (g != w || g.to_string() != message(w, 2)),
        };
        if bad {
            c.rep.violation(json!({"what": "a pair of characters", "a": a.to_string(), "b": b.to_string(),
                "got": match &got { Ok(Ok(x)) => json!(name_of(*x)), Ok(Err(e)) => json!({"error": kind(e), "message": e.to_string()}), Err(p) => json!({"panic": p}) },
                "expected": match &want { Ok(n) => json!(name(*n)), Err(e) => json!({"error": kind(e), "message": message(e, 2)}) }}));
        }
    };
    // every Unicode character in every place
    let all: Vec<char> = every_char().collect();
    let blocks = all.len().div_ceil(4096);
    par(blocks, c.rep, |w, k| {
        let mut s = String::with_capacity(16);
        for &x in &all[4096 * k..(4096 * k + 4096).min(all.len())] {
            beat(w, x as u64);
            let mut put = |p: &[char]| { s.clear(); s.extend(p); judge(&s) };
            put(&[x]);
            for r in [rows[0].rankchar, 'T', 'A', '9', 'é'] { put(&[r, x]); }
            for su in ['c', 'h', 's', 'd', '♣'] { put(&[x, su]); }
            put(&[x, x]);
            put(&[x, 'A', 's']);
            put(&['A', x, 's']);
            put(&['A', 's', x]);
            judge_pair(x, 's');
            judge_pair(x, 'x');
            judge_pair('K', x);
            judge_pair(x, x);
            if which == 10 {
                let r = Rank::try_from(x);
                let u = Suit::try_from(x);
                c.rep.add(2);
                if r.ok().map(rank_no) != al.rank.get(&x).copied() || (r.is_err() && r != Err(x)) { c.rep.violation(json!({"what": "a character taken for a rank, or refused as one", "char": x.to_string(), "got": format!("{:?}", r)})); }
                if u.ok().map(suit_no) != al.suit.get(&x).copied() || (u.is_err() && u != Err(x)) { c.rep.violation(json!({"what": "a character taken for a suit, or refused as one", "char": x.to_string(), "got": format!("{:?}", u)})); }
            }
        }
    });
    let mut n = 0u64;
    texts(c, rows, |t| { n += 1; beat(0, n); if n % 50_000 == 77 { c.rep.sample(json!({"text": t.chars().take(20).collect::<String>(), "parsed": format!("{:?}", t.parse::<Card>().map(name_of))})); } judge(t) });
    let near: Vec<char> = "23456789TJQKAchsd1tjqkaCHSD x♣♥♠♦é".chars().collect();
    for &a in &near { for &b in &near { judge_pair(a, b); } }
    c.rep.note("unicode_characters", all.len());
    c.rep.note("further_texts", n);
}

pub fn c10(c: &Ctx, rows: &[Row]) {
    for (i, r) in rows.iter().enumerate() {
        let x = card(i);
        let bad = |what: &str, got: String| json!({"what": what, "card": r.name, "got": got});
        c.rep.check(x.rank_suit_string() == r.name, || bad("text of a card", x.rank_suit_string()));
        c.rep.check(x.to_string() == r.display && format!("{}", x) == r.display, || bad("printed card", x.to_string()));
        c.rep.check(r.name.parse() == Ok(x), || bad("text does not parse back", format!("{:?}", r.name.parse::<Card>())));
        c.rep.check(x.rank_suit_string().parse() == Ok(x), || bad("own text does not parse back", x.rank_suit_string()));
        c.rep.check(Card::try_from_chars(r.rankchar, r.suitchar) == Ok(x), || bad("characters do not make the card", format!("{:?}", Card::try_from_chars(r.rankchar, r.suitchar))));
        c.rep.check(x.rank().as_char() == r.rankchar && x.suit().as_char() == r.suitchar && x.suit().as_pretty_char() == r.symbol, || bad("characters of a card", format!("{}{}{}", x.rank().as_char(), x.suit().as_char(), x.suit().as_pretty_char())));
        c.rep.check(Rank::try_from(r.rankchar) == Ok(x.rank()) && Suit::try_from(r.suitchar) == Ok(x.suit()), || bad("a character does not convert back", String::new()));
        c.rep.check(x.rank().to_string() == r.rankchar.to_string() && x.suit().to_string() == r.symbol.to_string(), || bad("printed rank or suit", format!("{} {}", x.rank(), x.suit())));
        c.rep.check(Card::parse_to_iter([&r.name]).next() == Some(Ok(x)), || bad("parsed in a batch", String::new()));
        if i % 13 == 3 { c.rep.sample(json!({"card": r.name, "text": x.rank_suit_string(), "printed": x.to_string()})); }
    }
    text_sweep(c, rows, 10);
}
pub fn c11(c: &Ctx, rows: &[Row]) { text_sweep(c, rows, 11); }

type Out = Result<usize, ParseCardError>;
fn norm(r: &Result<Card, ParseCardError>) -> Out { r.clone().map(number_of) }

/// C12: batches.
pub fn c12(c: &Ctx) {
    use std::cell::Cell;
    // what each text parses to alone
    let alone = |t: &str| -> Out { norm(&t.parse()) };
    let rounds = if c.thorough { 60_000 } else { 6_000 };
    par(rounds, c.rep, |w, t| {
        let mut rng = Rng::new(c.seed, 120_000 + t as u64);
        let n = if t % 50 == 0 { rng.range(50, 400) } else { rng.below(12) };
        let pbad = [0, 0, 1, 3, 6][rng.below(5)];
        let texts: Vec<String> = (0..n).map(|_| {
            if rng.below(10) < pbad {
                ["", "A", "Ax", "xs", "10h", "as", "AS", "é♣", "Tcc", " As", "2C", "♠A"][rng.below(12)].to_string()
            } else { name(rng.below(52)) }
        }).collect();
        let want: Vec<Out> = texts.iter().map(|t| alone(t)).collect();
        let src = SOURCES[rng.below(SOURCES.len())];
        let bad = |what: &str, got: Value| json!({"what": what, "texts": texts.iter().take(30).collect::<Vec<_>>(), "source": src, "got": got});
        beat(w, t as u64);
        let run = guard(|| -> Result<(), Value> {
            let mut b = batch(src, texts.clone());
            if b.pulled.get() != 0 { return Err(bad("texts taken before any result was asked for", json!(b.pulled.get()))); }
            let mut at = 0;
            // some steps from the front, sizes in between
            for _ in 0..rng.below(n + 3) {
                let left = n - at;
                let (lo, hi) = (b.hint)();
                if lo > left || hi.map(|h| h < left).unwrap_or(false) { return Err(bad("size hint does not hold", json!([lo, hi, left]))); }
                if b.exact && (lo != left || hi != Some(left)) { return Err(bad("size hint not exact though the source's is", json!([lo, hi, left]))); }
                let (r, k) = if rng.chance(1, 4) { let k = rng.below(4); ((b.nth)(k), k) } else { ((b.next)(), 0) };
                let w = want.get(at + k).cloned();
                let before = b.pulled.get();
                if r.as_ref().map(norm) != w { return Err(bad("a result is not that of its text alone", json!({"position": at + k, "got": format!("{:?}", r), "expected": format!("{:?}", w)}))); }
                at = (at + k + 1).min(n);
                if r.is_some() && before != at { return Err(bad("more texts taken than results given", json!([before, at]))); }
                if r.is_none() { break; }
            }
            let rest = &want[at..];
            match rng.below(4) {
                0 => { let v = (b.rest)(["collect", "for", "foreach", "fold", "byref", "take"][rng.below(6)]); if v.iter().map(norm).collect::<Vec<_>>() != rest { return Err(bad("the remaining results", json!(format!("{:?}", v)))); } }
                1 => { let v = (b.last)(); if v.as_ref().map(norm) != rest.last().cloned() { return Err(bad("the last result", json!(format!("{:?}", v)))); } }
                2 => { let k = (b.count)(); if k != rest.len() { return Err(bad("the number of results", json!(k))); } }
                _ => {
                    let v = (b.collect)().map(|v| v.iter().map(|c| number_of(*c)).collect::<Vec<_>>());
                    let want: Result<Vec<usize>, ParseCardError> = rest.iter().cloned().collect();
                    if v != want { return Err(bad("collecting", json!(format!("{:?}", v)))); }
                }
            }
            Ok(())
        });
        c.rep.add(1);
        match run { Ok(Ok(())) => {} Ok(Err(v)) => c.rep.violation(v), Err(p) => c.rep.violation(bad("a panic", json!(p))) }
        if t % 1511 == 7 { c.rep.sample(json!({"texts": texts.iter().take(8).collect::<Vec<_>>(), "source": src})); }
    });
    // beyond the end of a list, by steps and by leaps
    for n in [0usize, 1, 5, 52] {
        let texts: Vec<String> = (0..n).map(|i| if i % 3 == 2 { "no".to_string() } else { name(i) }).collect();
        for k in [n, n + 1, 255, 256, 257, 65_535, 65_536, 65_537, u32::MAX as usize, 1 << 32, usize::MAX] {
            let r = guard(|| {
                let mut it = Card::parse_to_iter(texts.clone());
                let leap = it.nth(k).is_none();
                let after = (0..70_000).all(|_| it.next().is_none());
                let skipped = Card::parse_to_iter(&texts).skip(k).count() == 0 && Card::parse_to_iter(&texts).take(k).count() == n;
                leap && after && skipped && it.size_hint() == (0, Some(0)) && it.count() == 0
            });
            c.rep.check(r == Ok(true), || json!({"what": "a result beyond the last text", "texts": n, "n": k.to_string(), "got": format!("{:?}", r)}));
        }
    }
    // batches longer than a small counter counts, with errors far in
    for n in [255usize, 256, 257, 65_535, 65_536, 70_000] {
        for src in SOURCES {
            let mut rng = Rng::new(c.seed, 125_000 + n as u64);
            let texts: Vec<String> = (0..n).map(|i| if i + 2 >= n || rng.chance(1, 97) { ["Zz", "A", "10h", ""][i % 4].to_string() } else { name(rng.below(52)) }).collect();
            let want: Vec<Out> = texts.iter().map(|t| alone(t)).collect();
            beat(0, n as u64);
            let r = guard(|| {
                let what = |w: &str| json!({"what": w, "texts": n, "source": src});
                let mut b = batch(src, texts.clone());
                let (lo, hi) = (b.hint)();
                c.rep.check(lo <= n && hi.map(|h| h >= n).unwrap_or(true) && (!b.exact || (lo == n && hi == Some(n))), || what("size hint of a long batch"));
                let v = (b.rest)("for");
                c.rep.check(v.len() == n, || what("the number of results of a long batch"));
                let wrong = v.iter().map(norm).zip(&want).position(|(a, b)| a != *b);
                c.rep.check(wrong.is_none(), || json!({"what": "a result of a long batch is not that of its text alone", "texts": n, "source": src, "position": wrong}));
                c.rep.check((batch(src, texts.clone()).count)() == n, || what("counting a long batch"));
                c.rep.check((batch(src, texts.clone()).last)().as_ref().map(norm) == want.last().cloned(), || what("the last of a long batch"));
                c.rep.check((batch(src, texts.clone()).nth)(n - 1).as_ref().map(norm) == want.last().cloned(), || what("the last by number of a long batch"));
                let good: Vec<String> = (0..n).map(|i| name(i % 52)).collect();
                let got = (batch(src, good).collect)().map(|v| v.iter().map(|c| number_of(*c)).collect::<Vec<_>>());
                c.rep.check(got == Ok((0..n).map(|i| i % 52).collect()), || what("collecting a long batch"));
            });
            if let Err(p) = r { c.rep.violation(json!({"what": "a panic in a long batch", "texts": n, "source": src, "panic": p})); }
        }
    }
    // collecting into other collections, and adaptors on top
    let mut rng = Rng::new(c.seed, 121);
    for t in 0..if c.thorough { 5000 } else { 800 } {
        let n = rng.below(14);
        let bad_at = if rng.chance(1, 2) && n > 0 { Some(rng.below(n)) } else { None };
        let bad_too = bad_at.map(|b| b + rng.below(n - b));
        let texts: Vec<String> = (0..n).map(|i| if Some(i) == bad_at { "Zz".into() } else if Some(i) == bad_too { "A".into() } else { name(rng.below(52)) }).collect();
        let want: Vec<Out> = texts.iter().map(|t| alone(t)).collect();
        let whole: Result<Vec<usize>, ParseCardError> = want.iter().cloned().collect();
        beat(0, t);
        let no = |v: Result<Vec<Card>, ParseCardError>| v.map(|v| v.iter().map(|c| number_of(*c)).collect::<Vec<usize>>());
        let fail = |what: &str| json!({"what": what, "texts": texts, "expected": format!("{:?}", whole)});
        let r = guard(|| {
            c.rep.check(no(Card::parse_to_iter(&texts).try_collect::<Box<[Card]>>().map(|b| b.to_vec())) == whole, || fail("try_collect into a box"));
            c.rep.check(no(Card::parse_to_iter(&texts).try_collect::<VecDeque<Card>>().map(Vec::from)) == whole, || fail("try_collect into a deque"));
            c.rep.check(Card::parse_to_iter(&texts).try_collect::<HashSet<Card>>().map(|s| s.into_iter().map(number_of).collect::<BTreeSet<_>>()) == whole.clone().map(|v| v.into_iter().collect()), || fail("try_collect into a set"));
            c.rep.check(no(Card::parse_to_iter(&texts).collect::<Result<Vec<Card>, _>>()) == whole, || fail("collect into a result"));
            c.rep.check(no(Card::parse_to_iter(texts.iter().map(|s| s.as_str()).collect::<Vec<&str>>()).try_collect()) == whole, || fail("a vector of borrowed texts"));
            c.rep.check(no(Card::parse_to_iter(texts.clone().into_boxed_slice().iter()).try_collect()) == whole, || fail("a boxed slice"));
            c.rep.check(no(Card::parse_to_iter(texts.iter().map(|s| std::borrow::Cow::Borrowed(s.as_str()))).try_collect()) == whole, || fail("copy-on-write texts"));
            c.rep.check(no(Card::parse_to_iter(texts.iter().map(|s| std::rc::Rc::<str>::from(s.as_str()))).try_collect()) == whole, || fail("shared texts"));
            c.rep.check(no(Card::parse_to_iter(texts.join(" ").split_whitespace()).try_collect()) == whole, || fail("a split line"));
            let it = |k: usize| Card::parse_to_iter(texts.iter().skip(k));
            c.rep.check(it(0).map(|r| norm(&r)).eq(want.iter().cloned()), || fail("map"));
            c.rep.check(it(0).enumerate().all(|(i, r)| norm(&r) == want[i]), || fail("enumerate"));
            c.rep.check(it(0).filter_map(|r| r.ok()).map(number_of).eq(want.iter().filter_map(|r| r.clone().ok())), || fail("filter_map"));
            c.rep.check(it(0).skip(2).map(|r| norm(&r)).eq(want.iter().skip(2).cloned()), || fail("skip"));
            c.rep.check(it(0).take(3).map(|r| norm(&r)).eq(want.iter().take(3).cloned()), || fail("take"));
            c.rep.check(it(0).step_by(2).map(|r| norm(&r)).eq(want.iter().step_by(2).cloned()), || fail("step_by"));
            c.rep.check(it(0).zip(&want).all(|(a, b)| norm(&a) == *b), || fail("zip"));
            c.rep.check(it(0).chain(it(1)).map(|r| norm(&r)).eq(want.iter().chain(want.iter().skip(1)).cloned()), || fail("chain"));
            c.rep.check(it(0).partition::<Vec<_>, _>(|r| r.is_ok()).0.len() == want.iter().filter(|r| r.is_ok()).count(), || fail("partition"));
            c.rep.check(it(0).position(|r| r.is_err()) == want.iter().position(|r| r.is_err()), || fail("position"));
            c.rep.check({ let mut p = it(0).peekable(); let first = p.peek().map(norm); first == want.first().cloned() && p.map(|r| norm(&r)).eq(want.iter().cloned()) }, || fail("peekable"));
            c.rep.check({ let mut i = it(0); let v: Vec<Out> = std::iter::from_fn(|| i.next()).map(|r| norm(&r)).collect(); v == want }, || fail("next until the end"));
            c.rep.check(it(0).try_fold(0, |k, r| if r.is_ok() { Ok(k + 1) } else { Err(k) }) == match want.iter().position(|r| r.is_err()) { Some(k) => Err(k), None => Ok(n) }, || fail("try_fold"));
            c.rep.check({ let mut i = it(0); i.by_ref().take(2).for_each(drop); i.map(|r| norm(&r)).eq(want.iter().skip(2).cloned()) }, || fail("by_ref then the rest"));
            c.rep.check(it(0).fold(0, |k, _| k + 1) == n && it(0).count() == n, || fail("count"));
        });
        if let Err(p) = r { c.rep.violation(json!({"what": "a panic in a batch", "texts": texts, "panic": p})); }
    }
    // endless sources
    let pulled = Cell::new(0usize);
    let endless = || { let p = &pulled; p.set(0); std::iter::repeat_with(move || { p.set(p.get() + 1); name(p.get() % 52) }) };
    let r = guard(|| {
        let v: Vec<_> = Card::parse_to_iter(endless()).take(200).collect();
        c.rep.check(v.len() == 200 && pulled.get() == 200 && v.iter().enumerate().all(|(i, r)| norm(r) == Ok((i + 1) % 52)), || json!({"what": "taking from an endless source", "pulled": pulled.get()}));
        let mut it = Card::parse_to_iter(endless());
        c.rep.check(pulled.get() == 0 && it.size_hint().1.is_none() && it.nth(99).map(|r| norm(&r)) == Some(Ok(100 % 52)) && pulled.get() == 100, || json!({"what": "skipping in an endless source", "pulled": pulled.get()}));
        let p = &pulled;
        p.set(0);
        let failing = std::iter::repeat_with(move || { p.set(p.get() + 1); if p.get() % 7 == 0 { "Xx".to_string() } else { name(p.get()) } });
        let e = Card::parse_to_iter(failing).try_collect::<Vec<Card>>();
        c.rep.check(e == Err("Xx".parse::<Card>().unwrap_err()) && pulled.get() == 7, || json!({"what": "collecting an endless source that fails", "got": format!("{:?}", e), "pulled": pulled.get()}));
    });
    if let Err(p) = r { c.rep.violation(json!({"what": "a panic on an endless source", "panic": p})); }
    // sources that parse and evaluate when asked for a text, texts that do when
    // asked for their characters, and sources that fail
    struct Text(String, u32);
    impl AsRef<str> for Text {
        fn as_ref(&self) -> &str {
            if self.1 > 0 { let _ = Card::parse_to_iter([Text(self.0.clone(), self.1 - 1), Text("Ks".into(), 0)]).try_collect::<Vec<_>>(); let _ = self.0.parse::<Card>(); }
            &self.0
        }
    }
    for t in 0..if c.thorough { 20_000 } else { 2_000 } {
        let mut rng = Rng::new(c.seed, 126_000 + t);
        let texts: Vec<String> = (0..rng.below(9)).map(|_| if rng.chance(1, 5) { ["", "Ax", "xs", "10h"][rng.below(4)].into() } else { name(rng.below(52)) }).collect();
        let want: Vec<Out> = texts.iter().map(|t| alone(t)).collect();
        let inner = RefCell::new(true);
        let fails = rng.below(12);
        let source = |fail: bool| { let (texts, inner) = (&texts, &inner); let mut at = 0; std::iter::from_fn(move || {
            if fail && at == fails { panic!("this source fails"); }
            at += 1;
            let other: Vec<Out> = Card::parse_to_iter(texts).map(|r| norm(&r)).collect();
            let whole = poker::deck::generate().count() == 52 && Evaluator::new() == Evaluator::default();
            *inner.borrow_mut() &= other == texts.iter().map(|t| alone(t)).collect::<Vec<_>>() && whole;
            texts.get(at - 1).map(|t| Text(t.clone(), 2))
        }) };
        let got = guard(|| Card::parse_to_iter(source(false)).map(|r| norm(&r)).collect::<Vec<Out>>());
        let good = guard(|| Card::parse_to_iter(source(false)).try_collect::<Vec<Card>>().map(|v| v.len()));
        c.rep.check(got.as_ref() == Ok(&want) && *inner.borrow(), || json!({"what": "a batch whose source itself parses gives other results", "texts": texts, "got": format!("{:?}", got), "expected": format!("{:?}", want)}));
        let n = texts.iter().position(|t| t.parse::<Card>().is_err());
        c.rep.check(match (&good, n) { (Ok(Ok(k)), None) => *k == texts.len(), (Ok(Err(e)), Some(i)) => Some(e) == texts[i].parse::<Card>().as_ref().err(), _ => false }, || json!({"what": "collecting a batch whose source itself parses", "texts": texts, "got": format!("{:?}", good)}));
        // a failing source: what came before stands, and later batches are whole
        let mut before = vec![];
        let r = guard(|| for r in Card::parse_to_iter(source(true)) { before.push(norm(&r)); });
        c.rep.check(before[..] == want[..fails.min(want.len())] && r.is_err() == (fails <= want.len()), || json!({"what": "results before a source failed", "texts": texts, "fails_at": fails, "got": format!("{:?}", before)}));
        let after = guard(|| Card::parse_to_iter(&texts).map(|r| norm(&r)).collect::<Vec<Out>>());
        c.rep.check(after.as_ref() == Ok(&want), || json!({"what": "a batch after a source failed", "texts": texts, "got": format!("{:?}", after)}));
    }
    // an iterator's results do not depend on other iterators in between
    for t in 0..200 {
        let mut rng = Rng::new(c.seed, 125_000 + t);
        let lists: Vec<Vec<String>> = (0..4).map(|_| (0..rng.below(8)).map(|_| if rng.chance(1, 4) { "??".into() } else { name(rng.below(52)) }).collect()).collect();
        let mut its: Vec<_> = lists.iter().map(|l| Card::parse_to_iter(l)).collect();
        let mut at = [0usize; 4];
        for _ in 0..40 {
            let k = rng.below(4);
            let got = its[k].next();
            let want = lists[k].get(at[k]).map(|t| alone(t));
            if want.is_some() || got.is_some() { c.rep.check(got.as_ref().map(norm) == want, || json!({"what": "interleaved batches", "lists": lists, "got": format!("{:?}", got)})); }
            at[k] += 1;
            if want.is_none() { at[k] = lists[k].len(); }
        }
    }
}

/// C13: the deck.
pub fn c13(c: &Ctx) {
    let gen = || poker::deck::generate();
    let base: Vec<Card> = match guard(|| gen().take(200).collect::<Vec<Card>>()) { Ok(v) => v, Err(p) => { c.rep.violation(json!({"what": "generating a deck panicked", "panic": p})); return; } };
    let ids: BTreeSet<usize> = base.iter().map(|x| number_of(*x)).collect();
    c.rep.check(base.len() == 52 && ids == (0..52).collect(), || json!({"what": "a deck does not hold each card once", "deck": names_of(&base)}));
    if c.rep.nviol.load(std::sync::atomic::Ordering::Relaxed) > 0 { return; }
    c.rep.sample(json!({"deck": names_of(&base).join(" ")}));
    let same = |what: &str, v: Vec<Card>, want: Vec<Card>| c.rep.check(v == want, || json!({"what": "a way of consuming a deck gives other cards", "way": what, "got": names_of(&v), "expected": names_of(&want)}));
    let all = base.clone();
    let r = guard(|| {
        for _ in 0..20 { same("collect", gen().collect(), all.clone()); }
        same("for", { let mut v = vec![]; for x in gen() { v.push(x) } v }, all.clone());
        same("for_each", { let mut v = vec![]; gen().for_each(|x| v.push(x)); v }, all.clone());
        same("fold", gen().fold(vec![], |mut v, x| { v.push(x); v }), all.clone());
        same("try_fold", gen().try_fold(vec![], |mut v, x| { v.push(x); Some(v) }).unwrap_or_default(), all.clone());
        same("reduce", gen().map(|x| vec![x]).reduce(|mut a, b| { a.extend(b); a }).unwrap_or_default(), all.clone());
        same("extend", { let mut v = vec![]; v.extend(gen()); v }, all.clone());
        same("deque", gen().collect::<VecDeque<_>>().into(), all.clone());
        same("box", gen().collect::<Box<[Card]>>().to_vec(), all.clone());
        same("filter", gen().filter(|x| x.suit() == Suit::Hearts).collect(), all.iter().copied().filter(|x| x.suit() == Suit::Hearts).collect());
        same("chain", gen().chain(gen()).collect(), [all.clone(), all.clone()].concat());
        same("zip", gen().zip(gen()).flat_map(|(a, b)| [a, b]).collect(), all.iter().flat_map(|x| [*x, *x]).collect());
        same("flat_map", (0..3).flat_map(|_| gen()).collect(), [all.clone(), all.clone(), all.clone()].concat());
        c.rep.check(gen().count() == 52 && gen().last() == all.last().copied(), || json!({"what": "counting or the last card"}));
        c.rep.check(gen().collect::<HashSet<_>>().len() == 52, || json!({"what": "a set of the deck"}));
        c.rep.check(gen().max().map(|x| x.rank()) == Some(Rank::Ace) && gen().min().map(|x| x.rank()) == Some(Rank::Two), || json!({"what": "maximum or minimum of the deck"}));
        for k in 0..56 {
            same("skip", gen().skip(k).collect(), all.iter().copied().skip(k).collect());
            same("take", gen().take(k).collect(), all.iter().copied().take(k).collect());
            same("step_by", gen().step_by(k + 1).collect(), all.iter().copied().step_by(k + 1).collect());
            c.rep.check(gen().nth(k) == all.get(k).copied(), || json!({"what": "nth card", "n": k}));
            same("by_ref", { let mut d = gen(); let mut v: Vec<Card> = d.by_ref().take(k).collect(); v.extend(d); v }, all.clone());
            same("nth then the rest", { let mut d = gen(); let mut v: Vec<Card> = d.nth(k).into_iter().collect(); v.extend(d); v }, all.iter().copied().skip(k).collect());
            c.rep.check({ let mut d = gen(); for _ in 0..k { d.next(); } d.count() } == 52usize.saturating_sub(k), || json!({"what": "count after some cards", "n": k}));
            c.rep.check({ let mut d = gen(); for _ in 0..k { d.next(); } d.last() } == if k < 52 { all.last().copied() } else { None }, || json!({"what": "last after some cards", "n": k}));
            same("fold after some cards", { let mut d = gen(); let mut v = vec![]; for _ in 0..k { v.extend(d.next()); } d.fold(v, |mut v, x| { v.push(x); v }) }, all.clone());
            let (lo, hi) = { let mut d = gen(); for _ in 0..k { d.next(); } d.size_hint() };
            let left = 52usize.saturating_sub(k);
            c.rep.check(lo <= left && hi.map(|h| h >= left).unwrap_or(true), || json!({"what": "size hint of a deck does not hold", "after": k, "hint": [json!(lo), json!(hi)]}));
            if k < 52 {
                c.rep.check({ let mut d = gen(); d.position(|x| x == all[k]) == Some(k) && d.next() == all.get(k + 1).copied() }, || json!({"what": "position of a card", "n": k}));
                c.rep.check({ let mut d = gen(); d.find(|x| *x == all[k]) == Some(all[k]) && d.count() == 51 - k }, || json!({"what": "finding a card", "n": k}));
            }
        }
        // far beyond the end, in small steps and in leaps
        for k in (56..700).chain([1000, 4095, 65_535, 65_536, 65_537, 65_588, 1 << 24, u32::MAX as usize - 1, u32::MAX as usize, 1 << 32, (1 << 32) + 51, usize::MAX / 2, usize::MAX - 52, usize::MAX - 1, usize::MAX]) {
            for at in [0, 1, 30, 52] {
                let mut d = gen();
                for _ in 0..at { d.next(); }
                c.rep.check(d.nth(k).is_none() && d.next().is_none() && d.nth(0).is_none() && d.size_hint().0 == 0 && d.count() == 0, || json!({"what": "a card beyond the end of the deck", "after": at, "n": k.to_string()}));
                let mut d = gen();
                for _ in 0..at { d.next(); }
                same("take beyond the end", d.take(k).collect(), all[at..].to_vec());
                let mut d = gen();
                for _ in 0..at { d.next(); }
                same("skip beyond the end", d.skip(k).collect(), vec![]);
                let mut d = gen();
                for _ in 0..at { d.next(); }
                same("steps beyond the end", d.step_by(k).collect(), all.get(at).copied().into_iter().collect());
            }
        }
        let mut d = gen();
        for i in 0..200_000 {
            let x = if i % 3 == 2 { d.nth(i % 5) } else { d.next() };
            if x.is_some() && i >= 52 { c.rep.violation(json!({"what": "a deck goes on after its end", "calls": i + 1, "got": names_of(&x.into_iter().collect::<Vec<_>>())})); break; }
        }
        c.rep.check(d.size_hint().0 == 0 && d.count() == 0, || json!({"what": "cards counted after the end of a deck"}));
        let mut d = gen();
        for _ in 0..52 { d.next(); }
        c.rep.check((0..5).all(|_| d.next().is_none()) && d.nth(3).is_none(), || json!({"what": "a deck goes on after its end"}));
    });
    if let Err(p) = r { c.rep.violation(json!({"what": "a panic while consuming a deck", "panic": p})); }
    // decks made, shuffled and used up while a deck is being used up, and
    // closures that fail in the middle
    for k in 0..60 {
        let r = guard(|| {
            let inner = || { let v: Vec<Card> = gen().collect(); let mut s = poker::deck::shuffled(); s.sort_by_key(|x| number_of(*x)); let n = gen().skip(k).count(); v == all && s.iter().map(|x| number_of(*x)).eq(0..52) && n == 52usize.saturating_sub(k) };
            let mut fine = true;
            let mut v = vec![];
            gen().for_each(|x| { fine &= inner(); v.push(x) });
            same("for_each making other decks", v, all.clone());
            same("fold making other decks", gen().fold(vec![], |mut v, x| { fine &= inner(); v.push(x); v }), all.clone());
            same("map making other decks", gen().map(|x| { fine &= inner(); x }).collect(), all.clone());
            same("filter making other decks", gen().filter(|x| { fine &= inner(); number_of(*x) % 4 != k % 4 }).collect(), all.iter().copied().filter(|x| number_of(*x) % 4 != k % 4).collect());
            let at = all.get(k).copied();
            c.rep.check(gen().position(|x| inner() && Some(x) == at) == at.map(|_| k), || json!({"what": "position of a card, making other decks", "n": k}));
            c.rep.check(fine, || json!({"what": "a deck made while another is used up is different"}));
        });
        if let Err(p) = r { c.rep.violation(json!({"what": "a panic making decks while a deck is used up", "panic": p})); }
        let mut seen = vec![];
        let r = guard(|| gen().for_each(|x| { if seen.len() == k { panic!("this closure fails"); } seen.push(x) }));
        c.rep.check(seen[..] == all[..k.min(52)] && r.is_err() == (k < 52), || json!({"what": "cards before a closure failed", "after": k, "got": names_of(&seen)}));
        let mut d = gen();
        let r = guard(|| { let mut n = 0; d.try_for_each(|_| { if n == k { return Err(n); } n += 1; Ok(()) }) });
        let rest = guard(|| d.collect::<Vec<Card>>());
        c.rep.check(r == Ok(if k < 52 { Err(k) } else { Ok(()) }) && rest.as_deref() == Ok(&all[(k + 1).min(52)..]), || json!({"what": "the rest of a deck after a closure left it", "after": k, "got": rest.map(|v| names_of(&v)).unwrap_or_default()}));
        let v = guard(|| gen().collect::<Vec<Card>>());
        c.rep.check(v.as_ref() == Ok(&all), || json!({"what": "a deck after a closure failed", "got": v.map(|v| names_of(&v)).unwrap_or_default()}));
    }
    // more decks than a small counter can number
    let n = if c.thorough { 3_000_000 } else { 200_000 };
    let r = guard(|| for i in 0..n {
        let whole = gen().eq(all.iter().copied());
        c.rep.check(whole, || json!({"what": "a deck made after many others is different", "decks_before_it": i, "next_deck": names_of(&gen().collect::<Vec<_>>())}));
        if !whole { break; }
    });
    if let Err(p) = r { c.rep.violation(json!({"what": "a panic while making many decks", "panic": p})); }
    c.rep.note("decks_one_after_another", n);
    // many decks at the same time, in all threads
    par(if c.thorough { 40_000 } else { 4_000 }, c.rep, |w, t| {
        let mut rng = Rng::new(c.seed, 130_000 + t as u64);
        let mut decks: Vec<(Option<Box<dyn Iterator<Item = Card>>>, usize)> = vec![];
        let mut log: Vec<String> = vec![];
        beat(w, t as u64);
        for _ in 0..120 {
            if decks.len() < 2 || (decks.len() < 6 && rng.chance(1, 20)) { decks.push((Some(Box::new(gen())), 0)); }
            let k = rng.below(decks.len());
            let (d, at) = &mut decks[k];
            let it = match d { Some(i) => i, None => { *d = Some(Box::new(gen())); *at = 0; d.as_mut().unwrap() } };
            let (got, want, what): (Vec<Card>, Vec<Card>, String) = match rng.below(12) {
                0..=5 => { let g = it.next().into_iter().collect(); let w = base.get(*at).copied().into_iter().collect(); *at = (*at + 1).min(52); (g, w, "next".into()) }
                6 | 7 => { let n = rng.below(9); let g = it.nth(n).into_iter().collect(); let w = base.get(*at + n).copied().into_iter().collect(); *at = (*at + n + 1).min(52); (g, w, format!("nth {}", n)) }
                8 => { let n = rng.below(9); let g = it.by_ref().take(n).collect(); let w = base[*at..(*at + n).min(52)].to_vec(); *at = (*at + n).min(52); (g, w, format!("take {}", n)) }
                9 => { let left = 52 - *at; let (lo, hi) = it.size_hint(); let ok = lo <= left && hi.map(|h| h >= left).unwrap_or(true); (if ok { vec![] } else { vec![base[0]] }, vec![], "size_hint".into()) }
                10 if rng.chance(1, 3) => { let w = base[*at..].to_vec(); let g = d.take().unwrap().collect(); *at = 0; (g, w, "collect".into()) }
                11 if rng.chance(1, 3) => { let w = 52 - *at; let g = d.take().unwrap().count(); *at = 0; (if g == w { vec![] } else { vec![base[0]; g] }, vec![], "count".into()) }
                _ => (vec![], vec![], "nothing".into()),
            };
            log.push(format!("{}:{}", k, what));
            c.rep.check(got == want, || json!({"what": "interleaved decks", "calls": log, "got": names_of(&got), "expected": names_of(&want)}));
            if got != want { break; }
        }
        if t % 1000 == 11 { c.rep.sample(json!({"interleaved_calls": log.iter().take(25).collect::<Vec<_>>()})); }
    });
}

/// C15: messages of evaluation errors.
pub fn c15(c: &Ctx) {
    let ev = Evaluator::new();
    const PREFIX: &str = "Cannot evaluate a poker hand with a set of cards that are not unique. Cards duplicated at least once: ";
    let judge = |h: &[usize]| {
        let cs: Vec<Card> = h.iter().map(|&x| card(x)).collect();
        let mut n = [0; 52];
        for &x in h { n[x] += 1; }
        let rep: BTreeSet<String> = (0..52).filter(|&x| n[x] > 1).map(name).collect();
        let r = guard(|| ev.evaluate(&cs).map(|_| ()).map_err(|e| (e.to_string(), e.clone())));
        c.rep.add(1);
        let bad = match &r {
            // which error it is, is C05's
            Ok(Ok(())) => false,
            Ok(Err((m, EvalError::InvalidHandSize(k)))) => *m != format!("Cannot evaluate a poker hand with a set of less than 5 cards. Number of cards received: {}", k) || (rep.is_empty() && *k != h.len()),
            Ok(Err((m, EvalError::CardsNotUnique(_)))) => match m.strip_prefix(PREFIX) {
                None => true,
                Some(l) => { let w: Vec<&str> = if l.is_empty() { vec![] } else { l.split(' ').collect() }; w.len() != rep.len() || w.iter().map(|s| s.to_string()).collect::<BTreeSet<_>>() != rep }
            },
            Err(_) => true,
        };
        if bad {
            c.rep.violation(json!({"what": "message of an evaluation error", "cards": names(h), "got": match &r { Ok(Err((m, _))) => json!(m), Err(p) => json!({"panic": p}), _ => json!("ok") }, "repeated": rep}));
        }
    };
    // the value's own message, whatever cards it carries: also ones the evaluator would accept
    let direct = |h: &[usize]| {
        let cs: Vec<Card> = h.iter().map(|&x| card(x)).collect();
        let mut n = [0; 52];
        for &x in h { n[x] += 1; }
        let rep: BTreeSet<String> = (0..52).filter(|&x| n[x] > 1).map(name).collect();
        let m = guard(|| EvalError::CardsNotUnique(cs.clone()).to_string());
        let ok = match &m { Ok(m) => m.strip_prefix(PREFIX).map(|l| { let w: Vec<&str> = if l.is_empty() { vec![] } else { l.split(' ').collect() }; w.len() == rep.len() && w.iter().map(|s| s.to_string()).collect::<BTreeSet<_>>() == rep }).unwrap_or(false), Err(_) => false };
        c.rep.check(ok, || json!({"what": "message of a not-unique error", "cards": names(h), "got": format!("{:?}", m), "repeated": rep}));
    };
    for x in 0..52 {
        for k in 2..12 { judge(&vec![x; k]); direct(&vec![x; k]); }
        for y in 0..52 {
            if x == y { continue; }
            judge(&[x, x, y]);
            judge(&[x, y, x]);
            judge(&[y, x, x, y]);
            judge(&[x, y, y, y, x, x]);
            direct(&[x, y, x, y, x]);
        }
    }
    // more repetitions than a small counter counts; a counted card beside a single one
    for k in [63usize, 64, 65, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1024, 65535, 65536, 65537, 65538] {
        for x in if k < 1000 { (0..52).collect::<Vec<usize>>() } else { vec![0, 17, 51] } {
            let y = (x + 1 + k % 50) % 52;
            let h = vec![x; k];
            judge(&h);
            direct(&h);
            let mut h = h;
            h.insert(k / 2, y);
            judge(&h);
            direct(&h);
            h.push(y);
            judge(&h);
            direct(&h);
        }
    }
    let deck: Vec<usize> = (0..52).collect();
    judge(&[deck.clone(), deck.clone()].concat());
    judge(&[deck.clone(), deck.clone(), deck.clone()].concat());
    for k in 1..52 { judge(&[&deck[..], &deck[..k]].concat()); judge(&[&deck[k..], &deck[k - 1..]].concat()); }
    for n in 0..5 { for t in 0..60 { let h: Vec<usize> = (0..n).map(|i| (t + 11 * i) % 52).collect(); judge(&h); } }
    for n in [0usize, 1, 2, 3, 4, 5, 7, 10, 99, 255, 256, 65536, usize::MAX] {
        let m = EvalError::InvalidHandSize(n).to_string();
        c.rep.check(m == format!("Cannot evaluate a poker hand with a set of less than 5 cards. Number of cards received: {}", n), || json!({"what": "message of a hand-size error", "n": n.to_string(), "got": m}));
    }
    // writers that write other errors when written to, and writers that fail
    struct Pen<'a>(String, &'a EvalError, usize, usize);
    impl std::fmt::Write for Pen<'_> {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.2 == self.3 { return Err(std::fmt::Error); }
            self.2 += 1;
            std::hint::black_box((self.1.to_string(), format!("{:?}", self.1), self.1.clone() == *self.1));
            self.0.push_str(s);
            Ok(())
        }
    }
    for t in 0..if c.thorough { 20_000 } else { 2_000 } {
        use std::fmt::Write;
        let mut rng = Rng::new(c.seed, 151_000 + t);
        let mut make = || -> EvalError { if rng.chance(1, 5) { EvalError::InvalidHandSize(rng.below(5)) } else { let n = rng.range(2, 9); let m = rng.range(1, 6); EvalError::CardsNotUnique((0..n).map(|_| card(7 * rng.below(m))).collect()) } };
        let (a, b) = (make(), make());
        // the order of repeated cards is free
        let words = |m: &str| { let mut v: Vec<String> = m.split(' ').map(|s| s.to_string()).collect(); v.sort(); v };
        let (ta, tb) = (a.to_string(), b.to_string());
        let r = guard(|| { let mut p = Pen(String::new(), &b, 0, usize::MAX); let r = write!(p, "{}", a); (r.is_ok(), p.0, p.2) });
        c.rep.check(matches!(&r, Ok((true, m, _)) if words(m) == words(&ta)), || json!({"what": "a message written while another is made is different", "error": format!("{:?}", a), "other": format!("{:?}", b), "alone": ta, "got": format!("{:?}", r)}));
        for fails in 0..r.map(|r| r.2).unwrap_or(0) {
            let r = guard(|| { let mut p = Pen(String::new(), &b, 0, fails); (write!(p, "{}", a).is_err(), p.0) });
            c.rep.check(matches!(&r, Ok((true, _))), || json!({"what": "a writer's failure is not passed on", "error": format!("{:?}", a), "after": fails, "got": format!("{:?}", r)}));
        }
        c.rep.check(words(&a.to_string()) == words(&ta) && words(&b.to_string()) == words(&tb), || json!({"what": "a message after a writer failed is different", "error": format!("{:?}", a), "before": ta, "after": a.to_string()}));
    }
    par(if c.thorough { 400_000 } else { 40_000 }, c.rep, |w, t| {
        let mut rng = Rng::new(c.seed, 150_000 + t as u64);
        let mut h: Vec<usize> = (0..rng.below(9)).map(|_| rng.below(52)).collect();
        for _ in 0..rng.below(7) { if !h.is_empty() { let x = h[rng.below(h.len())]; let p = rng.below(h.len() + 1); h.insert(p, x); } }
        beat(w, t as u64);
        judge(&h);
        direct(&h);
        if t % 9001 == 5 { c.rep.sample(json!({"cards": names(&h), "message": EvalError::CardsNotUnique(h.iter().map(|&x| card(x)).collect()).to_string()})); }
    });
}
