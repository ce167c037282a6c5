//! Calls on the library and their results as the specification writes them.
use crate::table::*;
use crate::util::*;
use poker::{Card, Eval, EvalError, Evaluator, ParseCardError};
use serde_json::{json, Map, Value};
use std::rc::Rc;
use std::sync::Arc;

pub struct Ctx {
    pub rep: &'static Report,
    pub ladder: Option<Ladder>,
    pub seed: u64,
    pub thorough: bool,
}
impl Ctx {
    pub fn l(&self) -> &Ladder { self.ladder.as_ref().expect("this check needs --ladder") }
}

pub type Res = Result<Result<Eval, EvalError>, String>;
#[inline]
pub fn eval(w: usize, ev: &Evaluator, cards: &[Card]) -> Res {
    let _ = w;
    guard(|| ev.evaluate(cards))
}
pub fn show(r: &Res) -> Value {
    match r {
        Ok(Ok(e)) => json!({"class": format!("{:?}", e.class()), "text": e.to_string()}),
        Ok(Err(e)) => json!({"error": format!("{:?}", e)}),
        Err(p) => json!({"panic": p}),
    }
}
pub fn same(a: &Res, b: &Res) -> bool {
    match (a, b) {
        (Ok(Ok(x)), Ok(Ok(y))) => x == y && x.is_equal_to(*y) && x.class() == y.class(),
        (Ok(Err(x)), Ok(Err(y))) => x == y,
        _ => false,
    }
}

pub fn mask(h: &[usize]) -> u64 { h.iter().fold(0, |m, &c| m | 1 << c) }

pub fn parse_out(r: &Result<Card, ParseCardError>) -> Value {
    match r {
        Ok(c) => json!({"t": "card", "card": name_of(*c)}),
        Err(ParseCardError::InvalidLength { original_input }) => json!({"t": "length", "input": original_input}),
        Err(ParseCardError::InvalidRank { original_input, incorrect_char }) => json!({"t": "rank", "input": original_input, "bad": incorrect_char.to_string()}),
        Err(ParseCardError::InvalidSuit { original_input, incorrect_char }) => json!({"t": "suit", "input": original_input, "bad": incorrect_char.to_string()}),
    }
}
pub fn class_out(c: poker::EvalClass) -> Map<String, Value> {
    let (k, a, b) = class_triple(c);
    let r = |x: i32| if x < 0 { "" } else { RANK_VARIANTS[x as usize] };
    let mut m = Map::new();
    m.insert("class".into(), CLASS_NAMES[k as usize].into());
    m.insert("r1".into(), r(a).into());
    m.insert("r2".into(), r(b).into());
    m
}
pub fn eval_out(r: &Result<Eval, EvalError>) -> Value {
    match r {
        Ok(e) => {
            let mut m = class_out(e.class());
            m.insert("t".into(), "ok".into());
            m.insert("name".into(), e.to_string().into());
            m.insert("cname".into(), e.class().to_string().into());
            m.insert("royal".into(), e.is_royal_flush().into());
            m.insert("preds".into(), predicates(*e).to_vec().into());
            Value::Object(m)
        }
        Err(EvalError::CardsNotUnique(v)) => json!({"t": "dup", "cards": names_of(v)}),
        Err(EvalError::InvalidHandSize(n)) => json!({"t": "size", "n": n}),
    }
}
/// One evaluation of `cs` handed over in the container `how`.
pub fn evaluate_as(e: &Evaluator, cs: &[Card], how: &str) -> Result<Eval, EvalError> {
    fn arr<const N: usize>(cs: &[Card]) -> [Card; N] { cs.try_into().unwrap() }
    match how {
        "array" => match cs.len() {
            0 => e.evaluate([Card::new(poker::Rank::Two, poker::Suit::Clubs); 0]),
            1 => e.evaluate(arr::<1>(cs)),
            2 => e.evaluate(arr::<2>(cs)),
            3 => e.evaluate(arr::<3>(cs)),
            4 => e.evaluate(arr::<4>(cs)),
            5 => e.evaluate(arr::<5>(cs)),
            6 => e.evaluate(arr::<6>(cs)),
            7 => e.evaluate(arr::<7>(cs)),
            8 => e.evaluate(arr::<8>(cs)),
            9 => e.evaluate(arr::<9>(cs)),
            10 => e.evaluate(arr::<10>(cs)),
            11 => e.evaluate(arr::<11>(cs)),
            13 => e.evaluate(arr::<13>(cs)),
            52 => e.evaluate(arr::<52>(cs)),
            _ => e.evaluate(cs),
        },
        "arrayref" => match cs.len() {
            4 => e.evaluate(&arr::<4>(cs)),
            5 => e.evaluate(&arr::<5>(cs)),
            6 => e.evaluate(&arr::<6>(cs)),
            7 => e.evaluate(&arr::<7>(cs)),
            _ => e.evaluate(cs),
        },
        "vec" => e.evaluate(cs.to_vec()),
        "vecref" => e.evaluate(&cs.to_vec()),
        "box" => e.evaluate(cs.to_vec().into_boxed_slice()),
        "boxref" => e.evaluate(&cs.to_vec().into_boxed_slice()),
        "cow" => e.evaluate(std::borrow::Cow::Borrowed(cs)),
        "rc" => e.evaluate(Rc::<[Card]>::from(cs)),
        "arc" => e.evaluate(Arc::<[Card]>::from(cs)),
        _ => e.evaluate(cs),
    }
}
pub const CONTAINERS: [&str; 10] = ["array", "slice", "vec", "vecref", "box", "boxref", "arrayref", "cow", "rc", "arc"];

/// Containers that do something when asked for their cards.
pub struct Asked<'a>(&'a [Card], &'a dyn Fn());
impl AsRef<[Card]> for Asked<'_> {
    fn as_ref(&self) -> &[Card] { (self.1)(); self.0 }
}
pub fn asking<'a>(cards: &'a [Card], then: &'a dyn Fn()) -> Asked<'a> { Asked(cards, then) }
