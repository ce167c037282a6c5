//! The specification's tables, and the correspondence between the
//! specification's values and the library's.
use poker::{Card, Eval, EvalClass, Rank, Suit};
use serde_json::Value;

pub const RANKS: [Rank; 13] = [
    Rank::Two, Rank::Three, Rank::Four, Rank::Five, Rank::Six, Rank::Seven, Rank::Eight,
    Rank::Nine, Rank::Ten, Rank::Jack, Rank::Queen, Rank::King, Rank::Ace,
];
pub const RANK_VARIANTS: [&str; 13] = [
    "Two", "Three", "Four", "Five", "Six", "Seven", "Eight", "Nine", "Ten", "Jack", "Queen", "King", "Ace",
];
pub const SUITS: [Suit; 4] = [Suit::Clubs, Suit::Hearts, Suit::Spades, Suit::Diamonds];
pub const SUIT_VARIANTS: [&str; 4] = ["Clubs", "Hearts", "Spades", "Diamonds"];
pub const RANK_CHARS: [char; 13] = ['2', '3', '4', '5', '6', '7', '8', '9', 'T', 'J', 'Q', 'K', 'A'];
pub const SUIT_CHARS: [char; 4] = ['c', 'h', 's', 'd'];
pub const CLASS_NAMES: [&str; 9] = [
    "HighCard", "Pair", "TwoPair", "ThreeOfAKind", "Straight", "Flush", "FullHouse", "FourOfAKind", "StraightFlush",
];

/// The specification's card number -> the library's card.
#[inline]
pub fn card(c: usize) -> Card { Card::new(RANKS[c / 4], SUITS[c % 4]) }
pub fn name(c: usize) -> String { format!("{}{}", RANK_CHARS[c / 4], SUIT_CHARS[c % 4]) }
pub fn names(cs: &[usize]) -> Vec<String> { cs.iter().map(|&c| name(c)).collect() }
pub fn mask_names(m: u64) -> Vec<String> { (0..52).filter(|&c| m >> c & 1 == 1).map(name).collect() }
pub fn card_no(n: &str) -> usize {
    let mut it = n.chars();
    let r = it.next().unwrap();
    let s = it.next().unwrap();
    4 * RANK_CHARS.iter().position(|&x| x == r).unwrap() + SUIT_CHARS.iter().position(|&x| x == s).unwrap()
}
/// Rank and suit numbers of library values, by comparing with the variants.
pub fn rank_no(r: Rank) -> usize { RANKS.iter().position(|&x| x == r).unwrap() }
pub fn suit_no(s: Suit) -> usize { SUITS.iter().position(|&x| x == s).unwrap() }
/// A library card's number, from what it reports; 99 when it is inconsistent.
pub fn number_of(c: Card) -> usize {
    let n = rank_no(c.rank()) * 4 + suit_no(c.suit());
    if card(n) == c { n } else { 99 }
}
pub fn name_of(c: Card) -> String {
    let n = number_of(c);
    if n < 52 { name(n) } else { format!("{:?}", c) }
}
pub fn names_of(cs: &[Card]) -> Vec<String> { cs.iter().map(|&c| name_of(c)).collect() }

/// (class number, first rank, second rank), -1 when absent.
pub fn class_triple(c: EvalClass) -> (i32, i32, i32) {
    let r = |r: Rank| rank_no(r) as i32;
    match c {
        EvalClass::HighCard { high_rank } => (0, r(high_rank), -1),
        EvalClass::Pair { pair } => (1, r(pair), -1),
        EvalClass::TwoPair { first_pair, second_pair } => (2, r(first_pair), r(second_pair)),
        EvalClass::ThreeOfAKind { trips } => (3, r(trips), -1),
        EvalClass::Straight { high_rank } => (4, r(high_rank), -1),
        EvalClass::Flush { high_rank } => (5, r(high_rank), -1),
        EvalClass::FullHouse { trips, pair } => (6, r(trips), r(pair)),
        EvalClass::FourOfAKind { quads } => (7, r(quads), -1),
        EvalClass::StraightFlush { high_rank } => (8, r(high_rank), -1),
    }
}
pub fn class_value(cat: usize, r1: usize, r2: usize) -> EvalClass {
    let a = RANKS[r1];
    match cat {
        0 => EvalClass::HighCard { high_rank: a },
        1 => EvalClass::Pair { pair: a },
        2 => EvalClass::TwoPair { first_pair: a, second_pair: RANKS[r2] },
        3 => EvalClass::ThreeOfAKind { trips: a },
        4 => EvalClass::Straight { high_rank: a },
        5 => EvalClass::Flush { high_rank: a },
        6 => EvalClass::FullHouse { trips: a, pair: RANKS[r2] },
        7 => EvalClass::FourOfAKind { quads: a },
        _ => EvalClass::StraightFlush { high_rank: a },
    }
}
/// The nine predicates, in class order.
pub fn predicates(e: Eval) -> [bool; 9] {
    [
        e.is_high_card(), e.is_pair(), e.is_two_pair(), e.is_three_of_a_kind(), e.is_straight(),
        e.is_flush(), e.is_full_house(), e.is_four_of_a_kind(), e.is_straight_flush(),
    ]
}

#[derive(Clone, Debug)]
pub struct Step {
    pub ranks: Vec<usize>,
    pub suited: bool,
    pub cat: i32,
    pub r1: i32,
    pub r2: i32,
    pub name: String,
    pub mult: u64,
}

/// The ladder of strengths exported by Ladder.tla; a step's index is its
/// position from the weakest (0) to the strongest (7461).
pub struct Ladder {
    pub steps: Vec<Step>,
    key: [Vec<u16>; 2],
}
fn rank_key(r: &[usize; 5]) -> usize {
    let mut a = *r;
    a.sort_unstable_by(|x, y| y.cmp(x));
    a.iter().fold(0, |k, &x| k * 13 + x)
}
impl Ladder {
    pub fn load(path: &str) -> Ladder {
        let text = std::fs::read_to_string(path).expect("cannot read the ladder");
        let mut steps = vec![];
        let mut key = [vec![u16::MAX; 371293], vec![u16::MAX; 371293]];
        for line in text.lines() {
            let v: Value = serde_json::from_str(line).expect("bad ladder line");
            let ranks: Vec<usize> = v["ranks"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let st = Step {
                suited: v["suited"].as_bool().unwrap(),
                cat: v["cat"].as_i64().unwrap() as i32,
                r1: v["r1"].as_i64().unwrap() as i32,
                r2: v["r2"].as_i64().unwrap() as i32,
                name: v["name"].as_str().unwrap().into(),
                mult: v["mult"].as_u64().unwrap(),
                ranks,
            };
            let mut a = [0; 5];
            a.copy_from_slice(&st.ranks);
            key[st.suited as usize][rank_key(&a)] = steps.len() as u16;
            steps.push(st);
        }
        assert_eq!(steps.len(), 7462, "ladder incomplete");
        Ladder { steps, key }
    }
    /// The step of a concrete five-card hand.
    pub fn of(&self, h: &[usize; 5]) -> u16 {
        let suited = h.iter().all(|&c| c % 4 == h[0] % 4);
        let k = rank_key(&[h[0] / 4, h[1] / 4, h[2] / 4, h[3] / 4, h[4] / 4]);
        let s = self.key[suited as usize][k];
        assert!(s != u16::MAX, "hand not in the ladder");
        s
    }
    /// A concrete hand of a step, suits chosen by `rng`.
    pub fn hand(&self, step: usize, rng: &mut crate::util::Rng) -> [usize; 5] {
        let st = &self.steps[step];
        loop {
            let mut h = [0; 5];
            let s0 = rng.below(4);
            for i in 0..5 {
                h[i] = 4 * st.ranks[i] + if st.suited { s0 } else { rng.below(4) };
            }
            let distinct = (0..5).all(|i| (0..i).all(|j| h[i] != h[j]));
            if distinct && (h.iter().all(|&c| c % 4 == h[0] % 4)) == st.suited {
                rng.shuffle(&mut h);
                return h;
            }
        }
    }
}

/// Binomials and the rank of every five-card hand by combinatorial number.
pub struct Index {
    bin: [[u32; 6]; 53],
    pub step: Vec<u16>,
}
impl Index {
    pub fn new(l: &Ladder) -> Index {
        let mut bin = [[0u32; 6]; 53];
        for n in 0..53 {
            bin[n][0] = 1;
            for k in 1..6 {
                bin[n][k] = if n == 0 { 0 } else { bin[n - 1][k - 1] + bin[n - 1][k] };
            }
        }
        let mut ix = Index { bin, step: vec![0; 2598960] };
        each_hand5(|h| {
            let i = ix.at(h);
            ix.step[i] = l.of(h);
        });
        ix
    }
    /// h ascending
    #[inline]
    pub fn at(&self, h: &[usize; 5]) -> usize {
        (self.bin[h[0]][1] + self.bin[h[1]][2] + self.bin[h[2]][3] + self.bin[h[3]][4] + self.bin[h[4]][5]) as usize
    }
    /// best step over all five-card subsets of ascending cards
    pub fn best(&self, s: &[usize]) -> u16 {
        let n = s.len();
        let mut m = 0;
        for e in 4..n {
            let b5 = self.bin[s[e]][5];
            for d in 3..e {
                let b4 = b5 + self.bin[s[d]][4];
                for c in 2..d {
                    let b3 = b4 + self.bin[s[c]][3];
                    for b in 1..c {
                        let b2 = b3 + self.bin[s[b]][2];
                        for a in 0..b {
                            let v = self.step[(b2 + self.bin[s[a]][1]) as usize];
                            if v > m {
                                m = v;
                            }
                        }
                    }
                }
            }
        }
        m
    }
}
pub fn each_hand5(mut f: impl FnMut(&[usize; 5])) {
    for e in 4..52 {
        each_hand5_top(e, &mut f);
    }
}
/// all ascending hands whose highest card is e
pub fn each_hand5_top(e: usize, f: &mut impl FnMut(&[usize; 5])) {
    for d in 3..e {
        for c in 2..d {
            for b in 1..c {
                for a in 0..b {
                    f(&[a, b, c, d, e]);
                }
            }
        }
    }
}
