//! Looks for one round of Jacks or Better that ends in each of the 7,462 kinds
//! of hand: which entropy seed (see shim/entropy.c), and which cards to swap.
//! Run by hand, once:  steer FIRST-SEED SEEDS > ../../vlib/rounds.txt
//! What it finds only steers the games: what they show is judged by TLC.
use poker::{deck, Evaluator};
use rand::seq::SliceRandom;
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use std::collections::HashMap;

type Found = HashMap<(poker::Eval, Option<poker::Suit>), (u64, u32)>;

fn entropy(seed: u64) -> [u8; 32] {
    let g = 0x9E3779B97F4A7C15u64;
    let mut state = seed.wrapping_mul(g).wrapping_add(1);
    let mut out = [0; 32];
    for b in &mut out {
        state = state.wrapping_add(g);
        let mut z = state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        *b = ((z ^ (z >> 31)) >> 24) as u8;
    }
    out
}

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let eval = Evaluator::new();
    let threads = 8u64;
    let mut best: Found = HashMap::new();
    let found: Vec<Found> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (eval, a) = (&eval, &a);
                s.spawn(move || {
                    let mut best: Found = HashMap::new();
                    for seed in (a[0] + t..a[0] + a[1]).step_by(threads as usize) {
                        let mut rng = ChaCha12Rng::from_seed(entropy(seed));
                        let mut d: Vec<_> = deck::generate().collect();
                        d.shuffle(&mut rng);
                        for mask in 1u32..32 {
                            let mut hand = d[..5].to_vec();
                            let mut rest = d[5..].to_vec();
                            let mut r = rng.clone();
                            let swaps: Vec<usize> = (0..5).filter(|i| mask >> i & 1 == 1).collect();
                            for &i in &swaps {
                                rest.push(hand[i]);
                            }
                            rest.shuffle(&mut r);
                            for (k, &i) in swaps.iter().enumerate() {
                                hand[i] = rest[k];
                            }
                            let e = eval.evaluate(&hand).unwrap();
                            // the four suits of a straight flush are told apart
                            let suit = if e.is_straight_flush() { Some(hand[0].suit()) } else { None };
                            best.entry((e, suit)).or_insert((seed, mask));
                        }
                    }
                    best
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for f in found {
        for (k, v) in f {
            let b = best.entry(k).or_insert(v);
            if v < *b {
                *b = v;
            }
        }
    }
    let mut v: Vec<_> = best.into_iter().collect();
    v.sort_by(|a, b| b.0 .0.cmp(&a.0 .0).then(a.1.cmp(&b.1)));
    eprintln!("{} kinds", v.len());
    for ((e, _), (s, m)) in v {
        println!("{} {} {}", s, m, e);
    }
}
