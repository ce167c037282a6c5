//! C16: what the construction macros build, against what is written in them.
//! This crate is separate so that a form that stops compiling is noticed.
mod forms;
use pkh::session::join;
use pkh::table::*;
use pkh::util::*;
use poker::{box_cards, card, cards, Card, ParseCardError};
use serde_json::json;

pub struct Case {
    pub form: &'static str,
    pub built: Result<Vec<Card>, String>,
    pub written: String,
}
pub fn one(v: &mut Vec<Case>, form: &'static str, c: Card, written: &str) { v.push(Case { form, built: Ok(vec![c]), written: written.into() }) }
pub fn many(v: &mut Vec<Case>, form: &'static str, c: &[Card], written: &str) { v.push(Case { form, built: Ok(c.to_vec()), written: written.into() }) }
pub fn parsed(v: &mut Vec<Case>, form: &'static str, r: Vec<Result<Card, ParseCardError>>, written: &str) {
    v.push(Case { form, built: r.into_iter().collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string()), written: written.into() })
}

fn results(v: &mut Vec<Case>, form: &'static str, got: Vec<Result<Card, ParseCardError>>, want: &[Result<Card, ParseCardError>]) {
    let good = |r: &[Result<Card, ParseCardError>]| -> Vec<Card> { r.iter().flatten().copied().collect() };
    let built = if got == want { Ok(good(&got)) } else { Err(format!("{:?} instead of {:?}", &got[..got.len().min(20)], &want[..want.len().min(20)])) };
    v.push(Case { form, built, written: names_of(&good(want)).join(" ") })
}

/// The macros name everything through the crate: they work where other things
/// bear the same names.
mod elsewhere {
    #[allow(dead_code)]
    struct Card;
    #[allow(dead_code)]
    enum Rank { Ace }
    #[allow(dead_code)]
    enum Suit { Spades }
    #[allow(unused_macros)]
    macro_rules! card { () => {} }
    pub fn cases(v: &mut Vec<crate::Case>) {
        crate::one(v, "card! among other names", poker::card!(Ace of Spades), "As");
        crate::many(v, "cards! among other names", &poker::cards!(Ace of Spades, Two of Clubs), "As 2c");
        crate::parsed(v, "cards! of texts among other names", poker::cards!("As", "2c").collect(), "As 2c");
        let (a, b) = (poker::cards!(Ace of Spades), poker::cards!(Two of Clubs));
        crate::many(v, "box_cards! among other names", &poker::box_cards!(a, b), "As 2c");
    }
}

fn mixed(v: &mut Vec<Case>, rng: &mut Rng) {
    // texts from expressions; failures are parse results in their place
    let a = String::from("As");
    let t: (&str, String) = ("Kd", "2c".into());
    let texts: Vec<&str> = vec!["3h", "4s"];
    parsed(v, "cards!(expressions)", cards!(a.as_str(), t.0, t.1.as_str(), texts[1], &"Tc"[..]).collect(), "As Kd 2c 4s Tc");
    parsed(v, "cards!(format)", cards!(format!("{} {}", a, t.0)).collect(), "As Kd");
    parsed(v, "card!(format)", vec![card!(format!("{}", a))], "As");
    parsed(v, "cards!(concat)", cards!(concat!("As", " ", "Kd")).collect(), "As Kd");
    let _ = card!("A").is_err();
    let fails: Vec<Result<Card, ParseCardError>> = cards!("As", "nope", "Kx", "2c").collect();
    v.push(Case { form: "cards!(some texts bad)", built: Ok(vec![]), written: if fails.len() == 4 && fails[0].is_ok() && fails[1] == card!("nope") && fails[2] == card!("Kx") && fails[3].is_ok() { "".into() } else { "bad results in place".into() } });
    let fails: Vec<Result<Card, ParseCardError>> = cards!("As nope Kx 2c").collect();
    v.push(Case { form: "cards!(line with bad texts)", built: Ok(vec![]), written: if fails.len() == 4 && fails[0].is_ok() && fails[1] == card!("nope") && fails[2] == card!("Kx") && fails[3].is_ok() { "".into() } else { "bad results in place".into() } });
    for s in ["", " ", "\n\t "] { parsed(v, "cards!(empty line)", cards!(s).collect(), ""); }
    parsed(v, "cards! collected", cards!("As Kd 2c").try_collect::<Vec<Card>>().map(|v| v.into_iter().map(Ok).collect::<Vec<_>>()).unwrap_or_default(), "As Kd 2c");
    parsed(v, "cards! collected", cards!("As", "Kd", "2c").try_collect::<Box<[Card]>>().map(|v| v.iter().map(|c| Ok(*c)).collect::<Vec<_>>()).unwrap_or_default(), "As Kd 2c");
    // in patterns of use: nested in other macros, as statics, in const fns
    const fn nuts() -> [Card; 2] { cards!(Ace, Clubs; Ace, Hearts) }
    static BOARD: [Card; 3] = cards!(Ten of Diamonds, Nine of Spades, Eight of Hearts);
    many(v, "box_cards!(const fn, static)", &box_cards!(nuts(), BOARD), "Ac Ah Td 9s 8h");
    many(v, "box_cards!(nested macros)", &box_cards!(cards!(Two of Clubs, Three of Hearts), cards!(Four, Spades; Five, Diamonds), [card!(Six of Clubs)]), "2c 3h 4s 5d 6c");
    many(v, "box_cards!(nested itself)", &box_cards!(box_cards!(nuts(), BOARD), nuts()), "Ac Ah Td 9s 8h Ac Ah");
    // each argument once, in order
    let mut deck: Vec<Card> = (0..10).map(card).collect();
    let b = box_cards!(deck.drain(..2).collect::<Vec<_>>(), deck.drain(..3).collect::<Vec<_>>(), deck.drain(..1).collect::<Vec<_>>());
    many(v, "box_cards!(drained deck)", &b, &names(&[0, 1, 2, 3, 4, 5]).join(" "));
    v.push(Case { form: "box_cards! drains once", built: Ok(deck.clone()), written: names(&[6, 7, 8, 9]).join(" ") });
    // expressions with effects: each evaluated once, in the written order, in every form
    for t in 0..52 {
        let log = std::cell::RefCell::new(vec![]);
        let next = |i: usize| -> Vec<Card> { log.borrow_mut().push(i); vec![card((i + t) % 52), card((3 * i + t) % 52)] };
        let text = |i: usize| -> String { log.borrow_mut().push(i); name((i + t) % 52) };
        let want = |n: usize| (0..n).flat_map(|i| [name((i + t) % 52), name((3 * i + t) % 52)]).collect::<Vec<_>>().join(" ");
        let once = |v: &mut Vec<Case>, n: usize| { let l = log.take(); v.push(Case { form: "each expression once, in order", built: if l == (0..n).collect::<Vec<_>>() { Ok(vec![]) } else { Err(format!("evaluated {:?} of {}", l, n)) }, written: "".into() }) };
        many(v, "box_cards!(two calls)", &box_cards!(next(0), next(1)), &want(2));
        once(v, 2);
        many(v, "box_cards!(forty calls)", &box_cards!(next(0), next(1), next(2), next(3), next(4), next(5), next(6), next(7), next(8), next(9), next(10), next(11), next(12), next(13), next(14), next(15), next(16), next(17), next(18), next(19), next(20), next(21), next(22), next(23), next(24), next(25), next(26), next(27), next(28), next(29), next(30), next(31), next(32), next(33), next(34), next(35), next(36), next(37), next(38), next(39)), &want(40));
        once(v, 40);
        parsed(v, "card!(call)", vec![card!(text(0))], &name(t));
        once(v, 1);
        let texts: Vec<String> = (0..3).map(|i| name((i + t) % 52)).collect();
        let at = |i: usize| -> &str { log.borrow_mut().push(i); &texts[i] };
        parsed(v, "cards!(calls)", cards!(at(0), at(1), at(2)).collect(), &texts.join(" "));
        once(v, 3);
        let line = texts.join(" ");
        parsed(v, "cards!(a call)", cards!({ log.borrow_mut().push(0); &line }).collect(), &line);
        once(v, 1);
    }
    many(v, "box_cards!(sixty-four slices)", &box_cards!([card(0)], [card(1)], [card(2)], [card(3)], [card(4)], [card(5)], [card(6)], [card(7)], [card(8)], [card(9)], [card(10)], [card(11)], [card(12)], [card(13)], [card(14)], [card(15)], [card(16)], [card(17)], [card(18)], [card(19)], [card(20)], [card(21)], [card(22)], [card(23)], [card(24)], [card(25)], [card(26)], [card(27)], [card(28)], [card(29)], [card(30)], [card(31)], [card(32)], [card(33)], [card(34)], [card(35)], [card(36)], [card(37)], [card(38)], [card(39)], [card(40)], [card(41)], [card(42)], [card(43)], [card(44)], [card(45)], [card(46)], [card(47)], [card(48)], [card(49)], [card(50)], [card(51)], [card(0)], [card(1)], [card(2)], [card(3)], [card(4)], [card(5)], [card(6)], [card(7)], [card(8)], [card(9)], [card(10)], [card(11)]), &(0..64).map(|i| name(i % 52)).collect::<Vec<_>>().join(" "));
    // any slices: kinds of containers, empty ones, repetitions
    for _ in 0..400 {
        let mut l = |n: usize| -> Vec<usize> { (0..rng.below(n)).map(|_| rng.below(52)).collect() };
        let (p, q, r) = (l(9), l(9), l(60));
        let c = |x: &Vec<usize>| -> Vec<Card> { x.iter().map(|&i| card(i)).collect() };
        let (a, b, d) = (c(&p), c(&q).into_boxed_slice(), c(&r));
        many(v, "box_cards!(vec, box)", &box_cards!(a, b), &names(&[p.clone(), q.clone()].concat()).join(" "));
        many(v, "box_cards!(slices)", &box_cards!(&d[..], &b[..], a.as_slice(),), &names(&[r.clone(), q.clone(), p.clone()].concat()).join(" "));
        many(v, "box_cards!(same twice)", &box_cards!(a, a, &a), &names(&[p.clone(), p.clone(), p.clone()].concat()).join(" "));
        many(v, "box_cards!(references)", &box_cards!(&a, &d, &b), &names(&[p.clone(), r.clone(), q.clone()].concat()).join(" "));
        if p.len() >= 2 { many(v, "box_cards!(parts)", &box_cards!(&a[1..], &a[..1]), &names(&[p[1..].to_vec(), p[..1].to_vec()].concat()).join(" ")); }
    }
    // lines and lists of any texts: each result that of its own text
    const TEXTS: [&str; 14] = ["nope", "A", "10h", "as", "Ax", "xs", "♠A", "A♠", "é♣", "AsKd", "2C", "T-", "Qh,", "Jd"];
    for t in 0..600 {
        let n = if t % 40 == 0 { 120 + rng.below(400) } else { rng.below(12) };
        let texts: Vec<String> = (0..n).map(|_| if rng.chance(1, 3) { TEXTS[rng.below(TEXTS.len())].to_string() } else { name(rng.below(52)) }).collect();
        let sep = [" ", "  ", "\t", "\n", "\u{3000}", " \u{2003} ", "\r\n", "\u{b}", "\u{85}"][t % 9];
        let mut line = texts.join(sep);
        if t % 4 == 1 { line = format!("{}{}{}", sep, line, sep); }
        let want: Vec<Result<Card, ParseCardError>> = texts.iter().map(|s| s.parse()).collect();
        results(v, "cards!(a line of any texts)", cards!(line).collect(), &want);
        results(v, "cards!(a line of any texts, step by step)", { let mut i = cards!(line); let mut g = vec![]; while let Some(x) = i.next() { g.push(x) } g }, &want);
        if n >= 3 { results(v, "cards!(three texts)", cards!(texts[0].as_str(), texts[1].as_str(), texts[n - 1].as_str()).collect(), &[want[0].clone(), want[1].clone(), want[n - 1].clone()]); }
        if n >= 7 { let x = |i: usize| texts[i].as_str(); results(v, "cards!(seven texts)", cards!(x(0), x(1), x(2), x(3), x(4), x(5), x(6)).collect(), &want[..7]); }
        if n >= 1 { results(v, "card!(any text)", vec![card!(texts[0])], &want[..1]); }
        let all: Result<Vec<Card>, ParseCardError> = want.iter().cloned().collect();
        let got = cards!(line).try_collect::<Vec<Card>>();
        v.push(Case { form: "cards!(a line of any texts) collected", built: if got == all { Ok(vec![]) } else { Err(format!("{:?} instead of {:?}", got, all)) }, written: "".into() });
    }
    // slices of any length
    for n in [200usize, 255, 256, 257, 1000, 65_536, 70_000] {
        let p: Vec<usize> = (0..n).map(|i| (i * 7 + i / 52) % 52).collect();
        let a: Vec<Card> = p.iter().map(|&i| card(i)).collect();
        let b = box_cards!(a, a[..3], a);
        let want: Vec<Card> = a.iter().chain(&a[..3]).chain(&a).copied().collect();
        v.push(Case { form: "box_cards!(long slices)", built: if *b == want[..] { Ok(vec![]) } else { Err(format!("{} cards, other than the slices' {} in order", b.len(), want.len())) }, written: "".into() });
    }
    for k in [2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20] {
        for t in 0..60 {
            let ls: Vec<Vec<usize>> = (0..k).map(|_| (0..rng.below(if t == 0 { 1 } else { 8 })).map(|_| rng.below(52)).collect()).collect();
            let cs: Vec<Vec<Card>> = ls.iter().map(|l| l.iter().map(|&i| card(i)).collect()).collect();
            many(v, "box_cards! of k slices", &join(&cs), &names(&ls.concat()).join(" "));
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let rep: &'static Report = Box::leak(Box::new(Report::new(&args[1])));
    let seed = args[2].parse().unwrap();
    let mut v = vec![];
    if let Err(p) = guard(|| { forms::cases(&mut v); elsewhere::cases(&mut v); mixed(&mut v, &mut Rng::new(seed, 16)) }) {
        rep.violation(json!({"what": "a macro panicked", "panic": p}));
    }
    let mut forms = std::collections::BTreeMap::new();
    for (i, c) in v.iter().enumerate() {
        let f = if c.form.starts_with("card!(") && c.form.contains(", ") { "card!(rank, suit)" } else if c.form.starts_with("card!(") && c.form.contains(" of ") { "card!(rank of suit)" } else { c.form };
        *forms.entry(f).or_insert(0u64) += 1;
        let got = c.built.as_ref().map(|b| names_of(b).join(" "));
        rep.check(got.as_deref() == Ok(c.written.as_str()), || json!({"what": "a macro built other cards than written", "form": c.form, "built": match &got { Ok(g) => json!(g), Err(e) => json!({"error": e}) }, "written": c.written}));
        if i % 487 == 3 { rep.sample(json!({"form": c.form, "written": c.written, "built": got.unwrap_or_default()})); }
    }
    // the same for TLC: a macro is a joining of the one list written in it
    let lines: Vec<String> = v.iter().map(|c| {
        let out = match &c.built { Ok(b) => json!({"t": "cards", "cards": names_of(b)}), Err(e) => json!({"t": "error", "msg": e}) };
        json!({"op": "box", "form": c.form, "lists": [c.written.split_whitespace().collect::<Vec<_>>()], "out": out}).to_string()
    }).collect();
    std::fs::write(&args[3], lines.join("\n") + "\n").expect("cannot write the trace");
    rep.note("cases_by_form", json!(forms));
    rep.write();
    std::process::exit(if rep.nviol.load(std::sync::atomic::Ordering::Relaxed) > 0 { 1 } else { 0 });
}
