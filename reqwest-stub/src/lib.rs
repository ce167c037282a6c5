//! Stands in for reqwest when the library's build script fetches its static
//! table.  There is no network here, and the table is not in the repository:
//! what it must contain is determined by the specification's ladder of the
//! 7462 strengths (PKS_LADDER, exported by Ladder.tla) and by the layout the
//! library's own lookup uses (key: product of the five rank primes; value:
//! Meta with the position from the best hand, 1, to the worst, 7462).  If that
//! layout no longer fits (PKS_LAYOUT), the entries are those harness-table
//! prints.
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub fn is_success(&self) -> bool { true }
    pub fn as_u16(&self) -> u16 { self.0 }
}

#[derive(Clone, Debug)]
pub struct Bytes(Vec<u8>);
impl std::ops::Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Bytes { fn as_ref(&self) -> &[u8] { &self.0 } }

pub mod blocking {
    use super::*;
    #[derive(Debug)]
    pub struct Response { body: Vec<u8> }
    impl Response {
        pub fn bytes(self) -> Result<Bytes> { Ok(Bytes(self.body)) }
        pub fn text(self) -> Result<String> { String::from_utf8(self.body).map_err(|e| Error(e.to_string())) }
        pub fn status(&self) -> StatusCode { StatusCode::OK }
        pub fn error_for_status(self) -> Result<Response> { Ok(self) }
        pub fn copy_to<W: std::io::Write + ?Sized>(&mut self, w: &mut W) -> Result<u64> {
            w.write_all(&self.body).map_err(|e| Error(e.to_string()))?;
            Ok(self.body.len() as u64)
        }
    }
    pub fn get<U: AsRef<str>>(_url: U) -> Result<Response> { Ok(Response { body: table()?.into_bytes() }) }
}

/// The tables from lines of harness-table: which, key, entry.
fn printed(text: &str) -> Result<String> {
    let mut flush = phf_codegen::Map::<i32>::new();
    let mut unsuited = phf_codegen::Map::<i32>::new();
    for l in text.lines() {
        let mut part = l.splitn(3, ' ');
        let (which, key, entry) = (part.next().unwrap(), part.next().unwrap().parse::<i32>().unwrap(), format!("Meta::{}", part.next().unwrap()));
        if which == "F" { flush.entry(key, &entry); } else { unsuited.entry(key, &entry); }
    }
    Ok(format!(
        "#[allow(unused_imports)]\nuse crate::{{card::rank::Rank::{{self, *}}, evaluate::{{hand_rank::PokerHandRank, meta::Meta}}}};\npub static FLUSH_LOOKUP: ::phf::Map<i32, Meta> = {};\npub static UNSUITED_LOOKUP: ::phf::Map<i32, Meta> = {};\n",
        flush.build(), unsuited.build()
    ))
}

const PRIMES: [i32; 13] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];
const RANKS: [&str; 13] = ["Two", "Three", "Four", "Five", "Six", "Seven", "Eight", "Nine", "Ten", "Jack", "Queen", "King", "Ace"];

fn number(line: &str, key: &str) -> i64 {
    let at = line.find(&format!("\"{}\":", key)).unwrap_or_else(|| panic!("no {} in {}", key, line)) + key.len() + 3;
    let rest = line[at..].trim_start();
    rest[..rest.find(|c: char| !c.is_ascii_digit() && c != '-').unwrap_or(rest.len())].parse().unwrap()
}
fn numbers(line: &str, key: &str) -> Vec<usize> {
    let at = line.find(&format!("\"{}\":[", key)).unwrap() + key.len() + 4;
    line[at..at + line[at..].find(']').unwrap()].split(',').map(|x| x.trim().parse().unwrap()).collect()
}

fn table() -> Result<String> {
    if let Ok(path) = std::env::var("PKS_LAYOUT") {
        return printed(&std::fs::read_to_string(&path).map_err(|e| Error(e.to_string()))?);
    }
    let path = std::env::var("PKS_LADDER").map_err(|_| Error("PKS_LADDER is not set".into()))?;
    let text = std::fs::read_to_string(&path).map_err(|e| Error(e.to_string()))?;
    let mut flush = phf_codegen::Map::<i32>::new();
    let mut unsuited = phf_codegen::Map::<i32>::new();
    let lines: Vec<&str> = text.lines().filter(|l| !l.is_empty()).collect();
    assert_eq!(lines.len(), 7462, "ladder incomplete");
    for (i, l) in lines.iter().enumerate() {
        let key: i32 = numbers(l, "ranks").iter().map(|&r| PRIMES[r]).product();
        let r = |k: &str| format!("crate::card::rank::Rank::{}", RANKS[number(l, k) as usize]);
        let (a, b) = (r("r1"), || r("r2"));
        let fields = match number(l, "cat") {
            0 => format!("HighCard {{ high_rank: {}", a),
            1 => format!("Pair {{ pair: {}", a),
            2 => format!("TwoPair {{ high_pair: {}, low_pair: {}", a, b()),
            3 => format!("ThreeOfAKind {{ trips: {}", a),
            4 => format!("Straight {{ high_rank: {}", a),
            5 => format!("Flush {{ high_rank: {}", a),
            6 => format!("FullHouse {{ trips: {}, pair: {}", a, b()),
            7 => format!("FourOfAKind {{ quads: {}", a),
            _ => format!("StraightFlush {{ high_rank: {}", a),
        };
        let value = format!("crate::evaluate::meta::Meta::{}, hand_rank: crate::evaluate::hand_rank::PokerHandRank({}) }}", fields, 7462 - i);
        if l.contains("\"suited\":true") { flush.entry(key, &value); } else { unsuited.entry(key, &value); }
    }
    Ok(format!(
        "pub static FLUSH_LOOKUP: ::phf::Map<i32, crate::evaluate::meta::Meta> = {};\npub static UNSUITED_LOOKUP: ::phf::Map<i32, crate::evaluate::meta::Meta> = {};\n",
        flush.build(), unsuited.build()
    ))
}
