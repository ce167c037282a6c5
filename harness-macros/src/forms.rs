// Generated by tools/gen_macros.py from the table of CardTable.tla.
// (what, cards the macro built, cards written)
#![allow(clippy::all)]
use crate::{one, many, parsed, Case};
pub fn cases(v: &mut Vec<Case>) {
    singles_pair(v); singles_of(v); singles_text(v); singles_list(v);
    lists_0(v);
    lists_1(v);
    lists_2(v);
    lists_3(v);
    lists_4(v);
    lists_5(v);
}
fn singles_pair(v: &mut Vec<Case>) {
    { const C: poker::Card = poker::card!(Two, Clubs); one(v, "card!(Two, Clubs)", C, "2c"); }
    { const C: poker::Card = poker::card!(Two, Hearts); one(v, "card!(Two, Hearts)", C, "2h"); }
    { const C: poker::Card = poker::card!(Two, Spades); one(v, "card!(Two, Spades)", C, "2s"); }
    { const C: poker::Card = poker::card!(Two, Diamonds); one(v, "card!(Two, Diamonds)", C, "2d"); }
    { const C: poker::Card = poker::card!(Three, Clubs); one(v, "card!(Three, Clubs)", C, "3c"); }
    { const C: poker::Card = poker::card!(Three, Hearts); one(v, "card!(Three, Hearts)", C, "3h"); }
    { const C: poker::Card = poker::card!(Three, Spades); one(v, "card!(Three, Spades)", C, "3s"); }
    { const C: poker::Card = poker::card!(Three, Diamonds); one(v, "card!(Three, Diamonds)", C, "3d"); }
    { const C: poker::Card = poker::card!(Four, Clubs); one(v, "card!(Four, Clubs)", C, "4c"); }
    { const C: poker::Card = poker::card!(Four, Hearts); one(v, "card!(Four, Hearts)", C, "4h"); }
    { const C: poker::Card = poker::card!(Four, Spades); one(v, "card!(Four, Spades)", C, "4s"); }
    { const C: poker::Card = poker::card!(Four, Diamonds); one(v, "card!(Four, Diamonds)", C, "4d"); }
    { const C: poker::Card = poker::card!(Five, Clubs); one(v, "card!(Five, Clubs)", C, "5c"); }
    { const C: poker::Card = poker::card!(Five, Hearts); one(v, "card!(Five, Hearts)", C, "5h"); }
    { const C: poker::Card = poker::card!(Five, Spades); one(v, "card!(Five, Spades)", C, "5s"); }
    { const C: poker::Card = poker::card!(Five, Diamonds); one(v, "card!(Five, Diamonds)", C, "5d"); }
    { const C: poker::Card = poker::card!(Six, Clubs); one(v, "card!(Six, Clubs)", C, "6c"); }
    { const C: poker::Card = poker::card!(Six, Hearts); one(v, "card!(Six, Hearts)", C, "6h"); }
    { const C: poker::Card = poker::card!(Six, Spades); one(v, "card!(Six, Spades)", C, "6s"); }
    { const C: poker::Card = poker::card!(Six, Diamonds); one(v, "card!(Six, Diamonds)", C, "6d"); }
    { const C: poker::Card = poker::card!(Seven, Clubs); one(v, "card!(Seven, Clubs)", C, "7c"); }
    { const C: poker::Card = poker::card!(Seven, Hearts); one(v, "card!(Seven, Hearts)", C, "7h"); }
    { const C: poker::Card = poker::card!(Seven, Spades); one(v, "card!(Seven, Spades)", C, "7s"); }
    { const C: poker::Card = poker::card!(Seven, Diamonds); one(v, "card!(Seven, Diamonds)", C, "7d"); }
    { const C: poker::Card = poker::card!(Eight, Clubs); one(v, "card!(Eight, Clubs)", C, "8c"); }
    { const C: poker::Card = poker::card!(Eight, Hearts); one(v, "card!(Eight, Hearts)", C, "8h"); }
    { const C: poker::Card = poker::card!(Eight, Spades); one(v, "card!(Eight, Spades)", C, "8s"); }
    { const C: poker::Card = poker::card!(Eight, Diamonds); one(v, "card!(Eight, Diamonds)", C, "8d"); }
    { const C: poker::Card = poker::card!(Nine, Clubs); one(v, "card!(Nine, Clubs)", C, "9c"); }
    { const C: poker::Card = poker::card!(Nine, Hearts); one(v, "card!(Nine, Hearts)", C, "9h"); }
    { const C: poker::Card = poker::card!(Nine, Spades); one(v, "card!(Nine, Spades)", C, "9s"); }
    { const C: poker::Card = poker::card!(Nine, Diamonds); one(v, "card!(Nine, Diamonds)", C, "9d"); }
    { const C: poker::Card = poker::card!(Ten, Clubs); one(v, "card!(Ten, Clubs)", C, "Tc"); }
    { const C: poker::Card = poker::card!(Ten, Hearts); one(v, "card!(Ten, Hearts)", C, "Th"); }
    { const C: poker::Card = poker::card!(Ten, Spades); one(v, "card!(Ten, Spades)", C, "Ts"); }
    { const C: poker::Card = poker::card!(Ten, Diamonds); one(v, "card!(Ten, Diamonds)", C, "Td"); }
    { const C: poker::Card = poker::card!(Jack, Clubs); one(v, "card!(Jack, Clubs)", C, "Jc"); }
    { const C: poker::Card = poker::card!(Jack, Hearts); one(v, "card!(Jack, Hearts)", C, "Jh"); }
    { const C: poker::Card = poker::card!(Jack, Spades); one(v, "card!(Jack, Spades)", C, "Js"); }
    { const C: poker::Card = poker::card!(Jack, Diamonds); one(v, "card!(Jack, Diamonds)", C, "Jd"); }
    { const C: poker::Card = poker::card!(Queen, Clubs); one(v, "card!(Queen, Clubs)", C, "Qc"); }
    { const C: poker::Card = poker::card!(Queen, Hearts); one(v, "card!(Queen, Hearts)", C, "Qh"); }
    { const C: poker::Card = poker::card!(Queen, Spades); one(v, "card!(Queen, Spades)", C, "Qs"); }
    { const C: poker::Card = poker::card!(Queen, Diamonds); one(v, "card!(Queen, Diamonds)", C, "Qd"); }
    { const C: poker::Card = poker::card!(King, Clubs); one(v, "card!(King, Clubs)", C, "Kc"); }
    { const C: poker::Card = poker::card!(King, Hearts); one(v, "card!(King, Hearts)", C, "Kh"); }
    { const C: poker::Card = poker::card!(King, Spades); one(v, "card!(King, Spades)", C, "Ks"); }
    { const C: poker::Card = poker::card!(King, Diamonds); one(v, "card!(King, Diamonds)", C, "Kd"); }
    { const C: poker::Card = poker::card!(Ace, Clubs); one(v, "card!(Ace, Clubs)", C, "Ac"); }
    { const C: poker::Card = poker::card!(Ace, Hearts); one(v, "card!(Ace, Hearts)", C, "Ah"); }
    { const C: poker::Card = poker::card!(Ace, Spades); one(v, "card!(Ace, Spades)", C, "As"); }
    { const C: poker::Card = poker::card!(Ace, Diamonds); one(v, "card!(Ace, Diamonds)", C, "Ad"); }
}
fn singles_of(v: &mut Vec<Case>) {
    { const C: poker::Card = poker::card!(Two of Clubs); one(v, "card!(Two of Clubs)", C, "2c"); one(v, "card!(Two of Clubs) at run time", poker::card!(Two of Clubs), "2c"); }
    { const C: poker::Card = poker::card!(Two of Hearts); one(v, "card!(Two of Hearts)", C, "2h"); one(v, "card!(Two of Hearts) at run time", poker::card!(Two of Hearts), "2h"); }
    { const C: poker::Card = poker::card!(Two of Spades); one(v, "card!(Two of Spades)", C, "2s"); one(v, "card!(Two of Spades) at run time", poker::card!(Two of Spades), "2s"); }
    { const C: poker::Card = poker::card!(Two of Diamonds); one(v, "card!(Two of Diamonds)", C, "2d"); one(v, "card!(Two of Diamonds) at run time", poker::card!(Two of Diamonds), "2d"); }
    { const C: poker::Card = poker::card!(Three of Clubs); one(v, "card!(Three of Clubs)", C, "3c"); one(v, "card!(Three of Clubs) at run time", poker::card!(Three of Clubs), "3c"); }
    { const C: poker::Card = poker::card!(Three of Hearts); one(v, "card!(Three of Hearts)", C, "3h"); one(v, "card!(Three of Hearts) at run time", poker::card!(Three of Hearts), "3h"); }
    { const C: poker::Card = poker::card!(Three of Spades); one(v, "card!(Three of Spades)", C, "3s"); one(v, "card!(Three of Spades) at run time", poker::card!(Three of Spades), "3s"); }
    { const C: poker::Card = poker::card!(Three of Diamonds); one(v, "card!(Three of Diamonds)", C, "3d"); one(v, "card!(Three of Diamonds) at run time", poker::card!(Three of Diamonds), "3d"); }
    { const C: poker::Card = poker::card!(Four of Clubs); one(v, "card!(Four of Clubs)", C, "4c"); one(v, "card!(Four of Clubs) at run time", poker::card!(Four of Clubs), "4c"); }
    { const C: poker::Card = poker::card!(Four of Hearts); one(v, "card!(Four of Hearts)", C, "4h"); one(v, "card!(Four of Hearts) at run time", poker::card!(Four of Hearts), "4h"); }
    { const C: poker::Card = poker::card!(Four of Spades); one(v, "card!(Four of Spades)", C, "4s"); one(v, "card!(Four of Spades) at run time", poker::card!(Four of Spades), "4s"); }
    { const C: poker::Card = poker::card!(Four of Diamonds); one(v, "card!(Four of Diamonds)", C, "4d"); one(v, "card!(Four of Diamonds) at run time", poker::card!(Four of Diamonds), "4d"); }
    { const C: poker::Card = poker::card!(Five of Clubs); one(v, "card!(Five of Clubs)", C, "5c"); one(v, "card!(Five of Clubs) at run time", poker::card!(Five of Clubs), "5c"); }
    { const C: poker::Card = poker::card!(Five of Hearts); one(v, "card!(Five of Hearts)", C, "5h"); one(v, "card!(Five of Hearts) at run time", poker::card!(Five of Hearts), "5h"); }
    { const C: poker::Card = poker::card!(Five of Spades); one(v, "card!(Five of Spades)", C, "5s"); one(v, "card!(Five of Spades) at run time", poker::card!(Five of Spades), "5s"); }
    { const C: poker::Card = poker::card!(Five of Diamonds); one(v, "card!(Five of Diamonds)", C, "5d"); one(v, "card!(Five of Diamonds) at run time", poker::card!(Five of Diamonds), "5d"); }
    { const C: poker::Card = poker::card!(Six of Clubs); one(v, "card!(Six of Clubs)", C, "6c"); one(v, "card!(Six of Clubs) at run time", poker::card!(Six of Clubs), "6c"); }
    { const C: poker::Card = poker::card!(Six of Hearts); one(v, "card!(Six of Hearts)", C, "6h"); one(v, "card!(Six of Hearts) at run time", poker::card!(Six of Hearts), "6h"); }
    { const C: poker::Card = poker::card!(Six of Spades); one(v, "card!(Six of Spades)", C, "6s"); one(v, "card!(Six of Spades) at run time", poker::card!(Six of Spades), "6s"); }
    { const C: poker::Card = poker::card!(Six of Diamonds); one(v, "card!(Six of Diamonds)", C, "6d"); one(v, "card!(Six of Diamonds) at run time", poker::card!(Six of Diamonds), "6d"); }
    { const C: poker::Card = poker::card!(Seven of Clubs); one(v, "card!(Seven of Clubs)", C, "7c"); one(v, "card!(Seven of Clubs) at run time", poker::card!(Seven of Clubs), "7c"); }
    { const C: poker::Card = poker::card!(Seven of Hearts); one(v, "card!(Seven of Hearts)", C, "7h"); one(v, "card!(Seven of Hearts) at run time", poker::card!(Seven of Hearts), "7h"); }
    { const C: poker::Card = poker::card!(Seven of Spades); one(v, "card!(Seven of Spades)", C, "7s"); one(v, "card!(Seven of Spades) at run time", poker::card!(Seven of Spades), "7s"); }
    { const C: poker::Card = poker::card!(Seven of Diamonds); one(v, "card!(Seven of Diamonds)", C, "7d"); one(v, "card!(Seven of Diamonds) at run time", poker::card!(Seven of Diamonds), "7d"); }
    { const C: poker::Card = poker::card!(Eight of Clubs); one(v, "card!(Eight of Clubs)", C, "8c"); one(v, "card!(Eight of Clubs) at run time", poker::card!(Eight of Clubs), "8c"); }
    { const C: poker::Card = poker::card!(Eight of Hearts); one(v, "card!(Eight of Hearts)", C, "8h"); one(v, "card!(Eight of Hearts) at run time", poker::card!(Eight of Hearts), "8h"); }
    { const C: poker::Card = poker::card!(Eight of Spades); one(v, "card!(Eight of Spades)", C, "8s"); one(v, "card!(Eight of Spades) at run time", poker::card!(Eight of Spades), "8s"); }
    { const C: poker::Card = poker::card!(Eight of Diamonds); one(v, "card!(Eight of Diamonds)", C, "8d"); one(v, "card!(Eight of Diamonds) at run time", poker::card!(Eight of Diamonds), "8d"); }
    { const C: poker::Card = poker::card!(Nine of Clubs); one(v, "card!(Nine of Clubs)", C, "9c"); one(v, "card!(Nine of Clubs) at run time", poker::card!(Nine of Clubs), "9c"); }
    { const C: poker::Card = poker::card!(Nine of Hearts); one(v, "card!(Nine of Hearts)", C, "9h"); one(v, "card!(Nine of Hearts) at run time", poker::card!(Nine of Hearts), "9h"); }
    { const C: poker::Card = poker::card!(Nine of Spades); one(v, "card!(Nine of Spades)", C, "9s"); one(v, "card!(Nine of Spades) at run time", poker::card!(Nine of Spades), "9s"); }
    { const C: poker::Card = poker::card!(Nine of Diamonds); one(v, "card!(Nine of Diamonds)", C, "9d"); one(v, "card!(Nine of Diamonds) at run time", poker::card!(Nine of Diamonds), "9d"); }
    { const C: poker::Card = poker::card!(Ten of Clubs); one(v, "card!(Ten of Clubs)", C, "Tc"); one(v, "card!(Ten of Clubs) at run time", poker::card!(Ten of Clubs), "Tc"); }
    { const C: poker::Card = poker::card!(Ten of Hearts); one(v, "card!(Ten of Hearts)", C, "Th"); one(v, "card!(Ten of Hearts) at run time", poker::card!(Ten of Hearts), "Th"); }
    { const C: poker::Card = poker::card!(Ten of Spades); one(v, "card!(Ten of Spades)", C, "Ts"); one(v, "card!(Ten of Spades) at run time", poker::card!(Ten of Spades), "Ts"); }
    { const C: poker::Card = poker::card!(Ten of Diamonds); one(v, "card!(Ten of Diamonds)", C, "Td"); one(v, "card!(Ten of Diamonds) at run time", poker::card!(Ten of Diamonds), "Td"); }
    { const C: poker::Card = poker::card!(Jack of Clubs); one(v, "card!(Jack of Clubs)", C, "Jc"); one(v, "card!(Jack of Clubs) at run time", poker::card!(Jack of Clubs), "Jc"); }
    { const C: poker::Card = poker::card!(Jack of Hearts); one(v, "card!(Jack of Hearts)", C, "Jh"); one(v, "card!(Jack of Hearts) at run time", poker::card!(Jack of Hearts), "Jh"); }
    { const C: poker::Card = poker::card!(Jack of Spades); one(v, "card!(Jack of Spades)", C, "Js"); one(v, "card!(Jack of Spades) at run time", poker::card!(Jack of Spades), "Js"); }
    { const C: poker::Card = poker::card!(Jack of Diamonds); one(v, "card!(Jack of Diamonds)", C, "Jd"); one(v, "card!(Jack of Diamonds) at run time", poker::card!(Jack of Diamonds), "Jd"); }
    { const C: poker::Card = poker::card!(Queen of Clubs); one(v, "card!(Queen of Clubs)", C, "Qc"); one(v, "card!(Queen of Clubs) at run time", poker::card!(Queen of Clubs), "Qc"); }
    { const C: poker::Card = poker::card!(Queen of Hearts); one(v, "card!(Queen of Hearts)", C, "Qh"); one(v, "card!(Queen of Hearts) at run time", poker::card!(Queen of Hearts), "Qh"); }
    { const C: poker::Card = poker::card!(Queen of Spades); one(v, "card!(Queen of Spades)", C, "Qs"); one(v, "card!(Queen of Spades) at run time", poker::card!(Queen of Spades), "Qs"); }
    { const C: poker::Card = poker::card!(Queen of Diamonds); one(v, "card!(Queen of Diamonds)", C, "Qd"); one(v, "card!(Queen of Diamonds) at run time", poker::card!(Queen of Diamonds), "Qd"); }
    { const C: poker::Card = poker::card!(King of Clubs); one(v, "card!(King of Clubs)", C, "Kc"); one(v, "card!(King of Clubs) at run time", poker::card!(King of Clubs), "Kc"); }
    { const C: poker::Card = poker::card!(King of Hearts); one(v, "card!(King of Hearts)", C, "Kh"); one(v, "card!(King of Hearts) at run time", poker::card!(King of Hearts), "Kh"); }
    { const C: poker::Card = poker::card!(King of Spades); one(v, "card!(King of Spades)", C, "Ks"); one(v, "card!(King of Spades) at run time", poker::card!(King of Spades), "Ks"); }
    { const C: poker::Card = poker::card!(King of Diamonds); one(v, "card!(King of Diamonds)", C, "Kd"); one(v, "card!(King of Diamonds) at run time", poker::card!(King of Diamonds), "Kd"); }
    { const C: poker::Card = poker::card!(Ace of Clubs); one(v, "card!(Ace of Clubs)", C, "Ac"); one(v, "card!(Ace of Clubs) at run time", poker::card!(Ace of Clubs), "Ac"); }
    { const C: poker::Card = poker::card!(Ace of Hearts); one(v, "card!(Ace of Hearts)", C, "Ah"); one(v, "card!(Ace of Hearts) at run time", poker::card!(Ace of Hearts), "Ah"); }
    { const C: poker::Card = poker::card!(Ace of Spades); one(v, "card!(Ace of Spades)", C, "As"); one(v, "card!(Ace of Spades) at run time", poker::card!(Ace of Spades), "As"); }
    { const C: poker::Card = poker::card!(Ace of Diamonds); one(v, "card!(Ace of Diamonds)", C, "Ad"); one(v, "card!(Ace of Diamonds) at run time", poker::card!(Ace of Diamonds), "Ad"); }
}
fn singles_text(v: &mut Vec<Case>) {
    parsed(v, "card!(text)", vec![poker::card!("2c")], "2c"); { let s = "2c"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("2h")], "2h"); { let s = "2h"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("2s")], "2s"); { let s = "2s"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("2d")], "2d"); { let s = "2d"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("3c")], "3c"); { let s = "3c"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("3h")], "3h"); { let s = "3h"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("3s")], "3s"); { let s = "3s"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("3d")], "3d"); { let s = "3d"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("4c")], "4c"); { let s = "4c"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("4h")], "4h"); { let s = "4h"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("4s")], "4s"); { let s = "4s"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("4d")], "4d"); { let s = "4d"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("5c")], "5c"); { let s = "5c"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("5h")], "5h"); { let s = "5h"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("5s")], "5s"); { let s = "5s"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("5d")], "5d"); { let s = "5d"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("6c")], "6c"); { let s = "6c"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("6h")], "6h"); { let s = "6h"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("6s")], "6s"); { let s = "6s"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("6d")], "6d"); { let s = "6d"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("7c")], "7c"); { let s = "7c"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("7h")], "7h"); { let s = "7h"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("7s")], "7s"); { let s = "7s"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("7d")], "7d"); { let s = "7d"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("8c")], "8c"); { let s = "8c"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("8h")], "8h"); { let s = "8h"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("8s")], "8s"); { let s = "8s"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("8d")], "8d"); { let s = "8d"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("9c")], "9c"); { let s = "9c"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("9h")], "9h"); { let s = "9h"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("9s")], "9s"); { let s = "9s"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("9d")], "9d"); { let s = "9d"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Tc")], "Tc"); { let s = "Tc"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Th")], "Th"); { let s = "Th"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Ts")], "Ts"); { let s = "Ts"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Td")], "Td"); { let s = "Td"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Jc")], "Jc"); { let s = "Jc"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Jh")], "Jh"); { let s = "Jh"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Js")], "Js"); { let s = "Js"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Jd")], "Jd"); { let s = "Jd"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Qc")], "Qc"); { let s = "Qc"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Qh")], "Qh"); { let s = "Qh"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Qs")], "Qs"); { let s = "Qs"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Qd")], "Qd"); { let s = "Qd"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Kc")], "Kc"); { let s = "Kc"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Kh")], "Kh"); { let s = "Kh"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Ks")], "Ks"); { let s = "Ks"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Kd")], "Kd"); { let s = "Kd"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Ac")], "Ac"); { let s = "Ac"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Ah")], "Ah"); { let s = "Ah"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("As")], "As"); { let s = "As"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
    parsed(v, "card!(text)", vec![poker::card!("Ad")], "Ad"); { let s = "Ad"; parsed(v, "card!(variable)", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, "card!(string)", vec![poker::card!(s)], &s); }
}
fn singles_list(v: &mut Vec<Case>) {
    many(v, "cards!(one pair)", &poker::cards!(Two, Clubs), "2c"); many(v, "cards!(one of)", &poker::cards!(Two of Clubs,), "2c"); many(v, "cards!(one pair;)", &poker::cards!(Two, Clubs;), "2c"); parsed(v, "cards!(one text)", poker::cards!("2c").collect(), "2c");
    many(v, "cards!(one pair)", &poker::cards!(Two, Hearts), "2h"); many(v, "cards!(one of)", &poker::cards!(Two of Hearts,), "2h"); many(v, "cards!(one pair;)", &poker::cards!(Two, Hearts;), "2h"); parsed(v, "cards!(one text)", poker::cards!("2h").collect(), "2h");
    many(v, "cards!(one pair)", &poker::cards!(Two, Spades), "2s"); many(v, "cards!(one of)", &poker::cards!(Two of Spades,), "2s"); many(v, "cards!(one pair;)", &poker::cards!(Two, Spades;), "2s"); parsed(v, "cards!(one text)", poker::cards!("2s").collect(), "2s");
    many(v, "cards!(one pair)", &poker::cards!(Two, Diamonds), "2d"); many(v, "cards!(one of)", &poker::cards!(Two of Diamonds,), "2d"); many(v, "cards!(one pair;)", &poker::cards!(Two, Diamonds;), "2d"); parsed(v, "cards!(one text)", poker::cards!("2d").collect(), "2d");
    many(v, "cards!(one pair)", &poker::cards!(Three, Clubs), "3c"); many(v, "cards!(one of)", &poker::cards!(Three of Clubs,), "3c"); many(v, "cards!(one pair;)", &poker::cards!(Three, Clubs;), "3c"); parsed(v, "cards!(one text)", poker::cards!("3c").collect(), "3c");
    many(v, "cards!(one pair)", &poker::cards!(Three, Hearts), "3h"); many(v, "cards!(one of)", &poker::cards!(Three of Hearts,), "3h"); many(v, "cards!(one pair;)", &poker::cards!(Three, Hearts;), "3h"); parsed(v, "cards!(one text)", poker::cards!("3h").collect(), "3h");
    many(v, "cards!(one pair)", &poker::cards!(Three, Spades), "3s"); many(v, "cards!(one of)", &poker::cards!(Three of Spades,), "3s"); many(v, "cards!(one pair;)", &poker::cards!(Three, Spades;), "3s"); parsed(v, "cards!(one text)", poker::cards!("3s").collect(), "3s");
    many(v, "cards!(one pair)", &poker::cards!(Three, Diamonds), "3d"); many(v, "cards!(one of)", &poker::cards!(Three of Diamonds,), "3d"); many(v, "cards!(one pair;)", &poker::cards!(Three, Diamonds;), "3d"); parsed(v, "cards!(one text)", poker::cards!("3d").collect(), "3d");
    many(v, "cards!(one pair)", &poker::cards!(Four, Clubs), "4c"); many(v, "cards!(one of)", &poker::cards!(Four of Clubs,), "4c"); many(v, "cards!(one pair;)", &poker::cards!(Four, Clubs;), "4c"); parsed(v, "cards!(one text)", poker::cards!("4c").collect(), "4c");
    many(v, "cards!(one pair)", &poker::cards!(Four, Hearts), "4h"); many(v, "cards!(one of)", &poker::cards!(Four of Hearts,), "4h"); many(v, "cards!(one pair;)", &poker::cards!(Four, Hearts;), "4h"); parsed(v, "cards!(one text)", poker::cards!("4h").collect(), "4h");
    many(v, "cards!(one pair)", &poker::cards!(Four, Spades), "4s"); many(v, "cards!(one of)", &poker::cards!(Four of Spades,), "4s"); many(v, "cards!(one pair;)", &poker::cards!(Four, Spades;), "4s"); parsed(v, "cards!(one text)", poker::cards!("4s").collect(), "4s");
    many(v, "cards!(one pair)", &poker::cards!(Four, Diamonds), "4d"); many(v, "cards!(one of)", &poker::cards!(Four of Diamonds,), "4d"); many(v, "cards!(one pair;)", &poker::cards!(Four, Diamonds;), "4d"); parsed(v, "cards!(one text)", poker::cards!("4d").collect(), "4d");
    many(v, "cards!(one pair)", &poker::cards!(Five, Clubs), "5c"); many(v, "cards!(one of)", &poker::cards!(Five of Clubs,), "5c"); many(v, "cards!(one pair;)", &poker::cards!(Five, Clubs;), "5c"); parsed(v, "cards!(one text)", poker::cards!("5c").collect(), "5c");
    many(v, "cards!(one pair)", &poker::cards!(Five, Hearts), "5h"); many(v, "cards!(one of)", &poker::cards!(Five of Hearts,), "5h"); many(v, "cards!(one pair;)", &poker::cards!(Five, Hearts;), "5h"); parsed(v, "cards!(one text)", poker::cards!("5h").collect(), "5h");
    many(v, "cards!(one pair)", &poker::cards!(Five, Spades), "5s"); many(v, "cards!(one of)", &poker::cards!(Five of Spades,), "5s"); many(v, "cards!(one pair;)", &poker::cards!(Five, Spades;), "5s"); parsed(v, "cards!(one text)", poker::cards!("5s").collect(), "5s");
    many(v, "cards!(one pair)", &poker::cards!(Five, Diamonds), "5d"); many(v, "cards!(one of)", &poker::cards!(Five of Diamonds,), "5d"); many(v, "cards!(one pair;)", &poker::cards!(Five, Diamonds;), "5d"); parsed(v, "cards!(one text)", poker::cards!("5d").collect(), "5d");
    many(v, "cards!(one pair)", &poker::cards!(Six, Clubs), "6c"); many(v, "cards!(one of)", &poker::cards!(Six of Clubs,), "6c"); many(v, "cards!(one pair;)", &poker::cards!(Six, Clubs;), "6c"); parsed(v, "cards!(one text)", poker::cards!("6c").collect(), "6c");
    many(v, "cards!(one pair)", &poker::cards!(Six, Hearts), "6h"); many(v, "cards!(one of)", &poker::cards!(Six of Hearts,), "6h"); many(v, "cards!(one pair;)", &poker::cards!(Six, Hearts;), "6h"); parsed(v, "cards!(one text)", poker::cards!("6h").collect(), "6h");
    many(v, "cards!(one pair)", &poker::cards!(Six, Spades), "6s"); many(v, "cards!(one of)", &poker::cards!(Six of Spades,), "6s"); many(v, "cards!(one pair;)", &poker::cards!(Six, Spades;), "6s"); parsed(v, "cards!(one text)", poker::cards!("6s").collect(), "6s");
    many(v, "cards!(one pair)", &poker::cards!(Six, Diamonds), "6d"); many(v, "cards!(one of)", &poker::cards!(Six of Diamonds,), "6d"); many(v, "cards!(one pair;)", &poker::cards!(Six, Diamonds;), "6d"); parsed(v, "cards!(one text)", poker::cards!("6d").collect(), "6d");
    many(v, "cards!(one pair)", &poker::cards!(Seven, Clubs), "7c"); many(v, "cards!(one of)", &poker::cards!(Seven of Clubs,), "7c"); many(v, "cards!(one pair;)", &poker::cards!(Seven, Clubs;), "7c"); parsed(v, "cards!(one text)", poker::cards!("7c").collect(), "7c");
    many(v, "cards!(one pair)", &poker::cards!(Seven, Hearts), "7h"); many(v, "cards!(one of)", &poker::cards!(Seven of Hearts,), "7h"); many(v, "cards!(one pair;)", &poker::cards!(Seven, Hearts;), "7h"); parsed(v, "cards!(one text)", poker::cards!("7h").collect(), "7h");
    many(v, "cards!(one pair)", &poker::cards!(Seven, Spades), "7s"); many(v, "cards!(one of)", &poker::cards!(Seven of Spades,), "7s"); many(v, "cards!(one pair;)", &poker::cards!(Seven, Spades;), "7s"); parsed(v, "cards!(one text)", poker::cards!("7s").collect(), "7s");
    many(v, "cards!(one pair)", &poker::cards!(Seven, Diamonds), "7d"); many(v, "cards!(one of)", &poker::cards!(Seven of Diamonds,), "7d"); many(v, "cards!(one pair;)", &poker::cards!(Seven, Diamonds;), "7d"); parsed(v, "cards!(one text)", poker::cards!("7d").collect(), "7d");
    many(v, "cards!(one pair)", &poker::cards!(Eight, Clubs), "8c"); many(v, "cards!(one of)", &poker::cards!(Eight of Clubs,), "8c"); many(v, "cards!(one pair;)", &poker::cards!(Eight, Clubs;), "8c"); parsed(v, "cards!(one text)", poker::cards!("8c").collect(), "8c");
    many(v, "cards!(one pair)", &poker::cards!(Eight, Hearts), "8h"); many(v, "cards!(one of)", &poker::cards!(Eight of Hearts,), "8h"); many(v, "cards!(one pair;)", &poker::cards!(Eight, Hearts;), "8h"); parsed(v, "cards!(one text)", poker::cards!("8h").collect(), "8h");
    many(v, "cards!(one pair)", &poker::cards!(Eight, Spades), "8s"); many(v, "cards!(one of)", &poker::cards!(Eight of Spades,), "8s"); many(v, "cards!(one pair;)", &poker::cards!(Eight, Spades;), "8s"); parsed(v, "cards!(one text)", poker::cards!("8s").collect(), "8s");
    many(v, "cards!(one pair)", &poker::cards!(Eight, Diamonds), "8d"); many(v, "cards!(one of)", &poker::cards!(Eight of Diamonds,), "8d"); many(v, "cards!(one pair;)", &poker::cards!(Eight, Diamonds;), "8d"); parsed(v, "cards!(one text)", poker::cards!("8d").collect(), "8d");
    many(v, "cards!(one pair)", &poker::cards!(Nine, Clubs), "9c"); many(v, "cards!(one of)", &poker::cards!(Nine of Clubs,), "9c"); many(v, "cards!(one pair;)", &poker::cards!(Nine, Clubs;), "9c"); parsed(v, "cards!(one text)", poker::cards!("9c").collect(), "9c");
    many(v, "cards!(one pair)", &poker::cards!(Nine, Hearts), "9h"); many(v, "cards!(one of)", &poker::cards!(Nine of Hearts,), "9h"); many(v, "cards!(one pair;)", &poker::cards!(Nine, Hearts;), "9h"); parsed(v, "cards!(one text)", poker::cards!("9h").collect(), "9h");
    many(v, "cards!(one pair)", &poker::cards!(Nine, Spades), "9s"); many(v, "cards!(one of)", &poker::cards!(Nine of Spades,), "9s"); many(v, "cards!(one pair;)", &poker::cards!(Nine, Spades;), "9s"); parsed(v, "cards!(one text)", poker::cards!("9s").collect(), "9s");
    many(v, "cards!(one pair)", &poker::cards!(Nine, Diamonds), "9d"); many(v, "cards!(one of)", &poker::cards!(Nine of Diamonds,), "9d"); many(v, "cards!(one pair;)", &poker::cards!(Nine, Diamonds;), "9d"); parsed(v, "cards!(one text)", poker::cards!("9d").collect(), "9d");
    many(v, "cards!(one pair)", &poker::cards!(Ten, Clubs), "Tc"); many(v, "cards!(one of)", &poker::cards!(Ten of Clubs,), "Tc"); many(v, "cards!(one pair;)", &poker::cards!(Ten, Clubs;), "Tc"); parsed(v, "cards!(one text)", poker::cards!("Tc").collect(), "Tc");
    many(v, "cards!(one pair)", &poker::cards!(Ten, Hearts), "Th"); many(v, "cards!(one of)", &poker::cards!(Ten of Hearts,), "Th"); many(v, "cards!(one pair;)", &poker::cards!(Ten, Hearts;), "Th"); parsed(v, "cards!(one text)", poker::cards!("Th").collect(), "Th");
    many(v, "cards!(one pair)", &poker::cards!(Ten, Spades), "Ts"); many(v, "cards!(one of)", &poker::cards!(Ten of Spades,), "Ts"); many(v, "cards!(one pair;)", &poker::cards!(Ten, Spades;), "Ts"); parsed(v, "cards!(one text)", poker::cards!("Ts").collect(), "Ts");
    many(v, "cards!(one pair)", &poker::cards!(Ten, Diamonds), "Td"); many(v, "cards!(one of)", &poker::cards!(Ten of Diamonds,), "Td"); many(v, "cards!(one pair;)", &poker::cards!(Ten, Diamonds;), "Td"); parsed(v, "cards!(one text)", poker::cards!("Td").collect(), "Td");
    many(v, "cards!(one pair)", &poker::cards!(Jack, Clubs), "Jc"); many(v, "cards!(one of)", &poker::cards!(Jack of Clubs,), "Jc"); many(v, "cards!(one pair;)", &poker::cards!(Jack, Clubs;), "Jc"); parsed(v, "cards!(one text)", poker::cards!("Jc").collect(), "Jc");
    many(v, "cards!(one pair)", &poker::cards!(Jack, Hearts), "Jh"); many(v, "cards!(one of)", &poker::cards!(Jack of Hearts,), "Jh"); many(v, "cards!(one pair;)", &poker::cards!(Jack, Hearts;), "Jh"); parsed(v, "cards!(one text)", poker::cards!("Jh").collect(), "Jh");
    many(v, "cards!(one pair)", &poker::cards!(Jack, Spades), "Js"); many(v, "cards!(one of)", &poker::cards!(Jack of Spades,), "Js"); many(v, "cards!(one pair;)", &poker::cards!(Jack, Spades;), "Js"); parsed(v, "cards!(one text)", poker::cards!("Js").collect(), "Js");
    many(v, "cards!(one pair)", &poker::cards!(Jack, Diamonds), "Jd"); many(v, "cards!(one of)", &poker::cards!(Jack of Diamonds,), "Jd"); many(v, "cards!(one pair;)", &poker::cards!(Jack, Diamonds;), "Jd"); parsed(v, "cards!(one text)", poker::cards!("Jd").collect(), "Jd");
    many(v, "cards!(one pair)", &poker::cards!(Queen, Clubs), "Qc"); many(v, "cards!(one of)", &poker::cards!(Queen of Clubs,), "Qc"); many(v, "cards!(one pair;)", &poker::cards!(Queen, Clubs;), "Qc"); parsed(v, "cards!(one text)", poker::cards!("Qc").collect(), "Qc");
    many(v, "cards!(one pair)", &poker::cards!(Queen, Hearts), "Qh"); many(v, "cards!(one of)", &poker::cards!(Queen of Hearts,), "Qh"); many(v, "cards!(one pair;)", &poker::cards!(Queen, Hearts;), "Qh"); parsed(v, "cards!(one text)", poker::cards!("Qh").collect(), "Qh");
    many(v, "cards!(one pair)", &poker::cards!(Queen, Spades), "Qs"); many(v, "cards!(one of)", &poker::cards!(Queen of Spades,), "Qs"); many(v, "cards!(one pair;)", &poker::cards!(Queen, Spades;), "Qs"); parsed(v, "cards!(one text)", poker::cards!("Qs").collect(), "Qs");
    many(v, "cards!(one pair)", &poker::cards!(Queen, Diamonds), "Qd"); many(v, "cards!(one of)", &poker::cards!(Queen of Diamonds,), "Qd"); many(v, "cards!(one pair;)", &poker::cards!(Queen, Diamonds;), "Qd"); parsed(v, "cards!(one text)", poker::cards!("Qd").collect(), "Qd");
    many(v, "cards!(one pair)", &poker::cards!(King, Clubs), "Kc"); many(v, "cards!(one of)", &poker::cards!(King of Clubs,), "Kc"); many(v, "cards!(one pair;)", &poker::cards!(King, Clubs;), "Kc"); parsed(v, "cards!(one text)", poker::cards!("Kc").collect(), "Kc");
    many(v, "cards!(one pair)", &poker::cards!(King, Hearts), "Kh"); many(v, "cards!(one of)", &poker::cards!(King of Hearts,), "Kh"); many(v, "cards!(one pair;)", &poker::cards!(King, Hearts;), "Kh"); parsed(v, "cards!(one text)", poker::cards!("Kh").collect(), "Kh");
    many(v, "cards!(one pair)", &poker::cards!(King, Spades), "Ks"); many(v, "cards!(one of)", &poker::cards!(King of Spades,), "Ks"); many(v, "cards!(one pair;)", &poker::cards!(King, Spades;), "Ks"); parsed(v, "cards!(one text)", poker::cards!("Ks").collect(), "Ks");
    many(v, "cards!(one pair)", &poker::cards!(King, Diamonds), "Kd"); many(v, "cards!(one of)", &poker::cards!(King of Diamonds,), "Kd"); many(v, "cards!(one pair;)", &poker::cards!(King, Diamonds;), "Kd"); parsed(v, "cards!(one text)", poker::cards!("Kd").collect(), "Kd");
    many(v, "cards!(one pair)", &poker::cards!(Ace, Clubs), "Ac"); many(v, "cards!(one of)", &poker::cards!(Ace of Clubs,), "Ac"); many(v, "cards!(one pair;)", &poker::cards!(Ace, Clubs;), "Ac"); parsed(v, "cards!(one text)", poker::cards!("Ac").collect(), "Ac");
    many(v, "cards!(one pair)", &poker::cards!(Ace, Hearts), "Ah"); many(v, "cards!(one of)", &poker::cards!(Ace of Hearts,), "Ah"); many(v, "cards!(one pair;)", &poker::cards!(Ace, Hearts;), "Ah"); parsed(v, "cards!(one text)", poker::cards!("Ah").collect(), "Ah");
    many(v, "cards!(one pair)", &poker::cards!(Ace, Spades), "As"); many(v, "cards!(one of)", &poker::cards!(Ace of Spades,), "As"); many(v, "cards!(one pair;)", &poker::cards!(Ace, Spades;), "As"); parsed(v, "cards!(one text)", poker::cards!("As").collect(), "As");
    many(v, "cards!(one pair)", &poker::cards!(Ace, Diamonds), "Ad"); many(v, "cards!(one of)", &poker::cards!(Ace of Diamonds,), "Ad"); many(v, "cards!(one pair;)", &poker::cards!(Ace, Diamonds;), "Ad"); parsed(v, "cards!(one text)", poker::cards!("Ad").collect(), "Ad");
}
fn lists_0(v: &mut Vec<Case>) {
    { const L: [poker::Card; 1] = poker::cards!(Seven, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "7d"); }
    { const L: [poker::Card; 1] = poker::cards![Seven of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "7d"); }
    parsed(v, "cards!(one line)", poker::cards!(" 7d\n").collect(), "7d");
    { let s = String::from(" 7d\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "7d"); }
    { const L: [poker::Card; 2] = poker::cards!(Nine, Spades; Nine, Spades;); many(v, "cards!(rank, suit; ..)", &L, "9s 9s"); }
    { const L: [poker::Card; 2] = poker::cards![Nine of Spades, Nine of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "9s 9s"); }
    parsed(v, "cards!(texts)", poker::cards!("9s", "9s",).collect(), "9s 9s");
    parsed(v, "cards!(one line)", poker::cards!("9s  9s").collect(), "9s 9s");
    { let s = String::from("9s  9s"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9s 9s"); }
    { const L: [poker::Card; 3] = poker::cards!(Six, Spades; Eight, Spades; Five, Spades); many(v, "cards!(rank, suit; ..)", &L, "6s 8s 5s"); }
    { const L: [poker::Card; 3] = poker::cards![Six of Spades, Eight of Spades, Five of Spades]; many(v, "cards!(rank of suit, ..)", &L, "6s 8s 5s"); }
    parsed(v, "cards!(texts)", poker::cards!("6s", "8s", "5s").collect(), "6s 8s 5s");
    parsed(v, "cards!(one line)", poker::cards!("6s\t8s\t5s").collect(), "6s 8s 5s");
    { let s = String::from("6s\t8s\t5s"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "6s 8s 5s"); }
    { const L: [poker::Card; 4] = poker::cards!(Nine, Clubs; Two, Clubs; Eight, Spades; Queen, Spades;); many(v, "cards!(rank, suit; ..)", &L, "9c 2c 8s Qs"); }
    { const L: [poker::Card; 4] = poker::cards![Nine of Clubs, Two of Clubs, Eight of Spades, Queen of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "9c 2c 8s Qs"); }
    parsed(v, "cards!(texts)", poker::cards!("9c", "2c", "8s", "Qs",).collect(), "9c 2c 8s Qs");
    parsed(v, "cards!(one line)", poker::cards!(" 9c\n2c\n8s\nQs\n").collect(), "9c 2c 8s Qs");
    { let s = String::from(" 9c\n2c\n8s\nQs\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9c 2c 8s Qs"); }
    { const L: [poker::Card; 5] = poker::cards!(King, Hearts; Six, Clubs; Five, Diamonds; Queen, Clubs; Five, Spades); many(v, "cards!(rank, suit; ..)", &L, "Kh 6c 5d Qc 5s"); }
    { const L: [poker::Card; 5] = poker::cards![King of Hearts, Six of Clubs, Five of Diamonds, Queen of Clubs, Five of Spades]; many(v, "cards!(rank of suit, ..)", &L, "Kh 6c 5d Qc 5s"); }
    parsed(v, "cards!(texts)", poker::cards!("Kh", "6c", "5d", "Qc", "5s").collect(), "Kh 6c 5d Qc 5s");
    parsed(v, "cards!(one line)", poker::cards!("Kh \t 6c \t 5d \t Qc \t 5s").collect(), "Kh 6c 5d Qc 5s");
    { let s = String::from("Kh \t 6c \t 5d \t Qc \t 5s"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Kh 6c 5d Qc 5s"); }
    { const L: [poker::Card; 6] = poker::cards!(Two, Clubs; Six, Spades; Six, Diamonds; Seven, Hearts; Queen, Spades; Four, Hearts;); many(v, "cards!(rank, suit; ..)", &L, "2c 6s 6d 7h Qs 4h"); }
    { const L: [poker::Card; 6] = poker::cards![Two of Clubs, Six of Spades, Six of Diamonds, Seven of Hearts, Queen of Spades, Four of Hearts,]; many(v, "cards!(rank of suit, ..)", &L, "2c 6s 6d 7h Qs 4h"); }
    parsed(v, "cards!(texts)", poker::cards!("2c", "6s", "6d", "7h", "Qs", "4h",).collect(), "2c 6s 6d 7h Qs 4h");
    parsed(v, "cards!(one line)", poker::cards!("2c 6s 6d 7h Qs 4h").collect(), "2c 6s 6d 7h Qs 4h");
    { let s = String::from("2c 6s 6d 7h Qs 4h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "2c 6s 6d 7h Qs 4h"); }
    { const L: [poker::Card; 7] = poker::cards!(King, Diamonds; Jack, Spades; Six, Diamonds; Two, Hearts; Ace, Spades; Five, Spades; Jack, Spades); many(v, "cards!(rank, suit; ..)", &L, "Kd Js 6d 2h As 5s Js"); }
    { const L: [poker::Card; 7] = poker::cards![King of Diamonds, Jack of Spades, Six of Diamonds, Two of Hearts, Ace of Spades, Five of Spades, Jack of Spades]; many(v, "cards!(rank of suit, ..)", &L, "Kd Js 6d 2h As 5s Js"); }
    parsed(v, "cards!(texts)", poker::cards!("Kd", "Js", "6d", "2h", "As", "5s", "Js").collect(), "Kd Js 6d 2h As 5s Js");
    parsed(v, "cards!(one line)", poker::cards!(" Kd Js 6d 2h As 5s Js\n").collect(), "Kd Js 6d 2h As 5s Js");
    { let s = String::from(" Kd Js 6d 2h As 5s Js\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Kd Js 6d 2h As 5s Js"); }
    { const L: [poker::Card; 8] = poker::cards!(Six, Clubs; Two, Hearts; Four, Hearts; Ace, Diamonds; Jack, Spades; Queen, Spades; Queen, Clubs; Two, Hearts;); many(v, "cards!(rank, suit; ..)", &L, "6c 2h 4h Ad Js Qs Qc 2h"); }
    { const L: [poker::Card; 8] = poker::cards![Six of Clubs, Two of Hearts, Four of Hearts, Ace of Diamonds, Jack of Spades, Queen of Spades, Queen of Clubs, Two of Hearts,]; many(v, "cards!(rank of suit, ..)", &L, "6c 2h 4h Ad Js Qs Qc 2h"); }
    parsed(v, "cards!(texts)", poker::cards!("6c", "2h", "4h", "Ad", "Js", "Qs", "Qc", "2h",).collect(), "6c 2h 4h Ad Js Qs Qc 2h");
    parsed(v, "cards!(one line)", poker::cards!("6c\r\n2h\r\n4h\r\nAd\r\nJs\r\nQs\r\nQc\r\n2h").collect(), "6c 2h 4h Ad Js Qs Qc 2h");
    { let s = String::from("6c\r\n2h\r\n4h\r\nAd\r\nJs\r\nQs\r\nQc\r\n2h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "6c 2h 4h Ad Js Qs Qc 2h"); }
    { const L: [poker::Card; 1] = poker::cards!(Nine, Hearts); many(v, "cards!(rank, suit; ..)", &L, "9h"); }
    { const L: [poker::Card; 1] = poker::cards![Nine of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "9h"); }
    parsed(v, "cards!(one line)", poker::cards!("9h").collect(), "9h");
    { let s = String::from("9h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9h"); }
    { const L: [poker::Card; 2] = poker::cards!(Nine, Hearts; Jack, Spades;); many(v, "cards!(rank, suit; ..)", &L, "9h Js"); }
    { const L: [poker::Card; 2] = poker::cards![Nine of Hearts, Jack of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "9h Js"); }
    parsed(v, "cards!(texts)", poker::cards!("9h", "Js",).collect(), "9h Js");
    parsed(v, "cards!(one line)", poker::cards!(" 9h  Js\n").collect(), "9h Js");
    { let s = String::from(" 9h  Js\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9h Js"); }
    { const L: [poker::Card; 3] = poker::cards!(Queen, Clubs; King, Hearts; Six, Spades); many(v, "cards!(rank, suit; ..)", &L, "Qc Kh 6s"); }
    { const L: [poker::Card; 3] = poker::cards![Queen of Clubs, King of Hearts, Six of Spades]; many(v, "cards!(rank of suit, ..)", &L, "Qc Kh 6s"); }
    parsed(v, "cards!(texts)", poker::cards!("Qc", "Kh", "6s").collect(), "Qc Kh 6s");
    parsed(v, "cards!(one line)", poker::cards!("Qc\tKh\t6s").collect(), "Qc Kh 6s");
    { let s = String::from("Qc\tKh\t6s"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Qc Kh 6s"); }
    { const L: [poker::Card; 4] = poker::cards!(Five, Spades; Ace, Spades; Six, Diamonds; Seven, Diamonds;); many(v, "cards!(rank, suit; ..)", &L, "5s As 6d 7d"); }
    { const L: [poker::Card; 4] = poker::cards![Five of Spades, Ace of Spades, Six of Diamonds, Seven of Diamonds,]; many(v, "cards!(rank of suit, ..)", &L, "5s As 6d 7d"); }
    parsed(v, "cards!(texts)", poker::cards!("5s", "As", "6d", "7d",).collect(), "5s As 6d 7d");
    parsed(v, "cards!(one line)", poker::cards!("5s\nAs\n6d\n7d").collect(), "5s As 6d 7d");
    { let s = String::from("5s\nAs\n6d\n7d"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "5s As 6d 7d"); }
    { const L: [poker::Card; 5] = poker::cards!(Six, Clubs; Eight, Spades; Ace, Spades; Three, Hearts; Seven, Spades); many(v, "cards!(rank, suit; ..)", &L, "6c 8s As 3h 7s"); }
    { const L: [poker::Card; 5] = poker::cards![Six of Clubs, Eight of Spades, Ace of Spades, Three of Hearts, Seven of Spades]; many(v, "cards!(rank of suit, ..)", &L, "6c 8s As 3h 7s"); }
    parsed(v, "cards!(texts)", poker::cards!("6c", "8s", "As", "3h", "7s").collect(), "6c 8s As 3h 7s");
    parsed(v, "cards!(one line)", poker::cards!(" 6c \t 8s \t As \t 3h \t 7s\n").collect(), "6c 8s As 3h 7s");
    { let s = String::from(" 6c \t 8s \t As \t 3h \t 7s\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "6c 8s As 3h 7s"); }
    { const L: [poker::Card; 6] = poker::cards!(Nine, Diamonds; Eight, Diamonds; Ten, Hearts; Queen, Hearts; Four, Diamonds; Jack, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "9d 8d Th Qh 4d Jc"); }
    { const L: [poker::Card; 6] = poker::cards![Nine of Diamonds, Eight of Diamonds, Ten of Hearts, Queen of Hearts, Four of Diamonds, Jack of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "9d 8d Th Qh 4d Jc"); }
    parsed(v, "cards!(texts)", poker::cards!("9d", "8d", "Th", "Qh", "4d", "Jc",).collect(), "9d 8d Th Qh 4d Jc");
    parsed(v, "cards!(one line)", poker::cards!("9d 8d Th Qh 4d Jc").collect(), "9d 8d Th Qh 4d Jc");
    { let s = String::from("9d 8d Th Qh 4d Jc"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9d 8d Th Qh 4d Jc"); }
    { const L: [poker::Card; 7] = poker::cards!(Six, Spades; Jack, Hearts; Two, Spades; Six, Spades; Three, Hearts; Ace, Spades; Two, Clubs); many(v, "cards!(rank, suit; ..)", &L, "6s Jh 2s 6s 3h As 2c"); }
    { const L: [poker::Card; 7] = poker::cards![Six of Spades, Jack of Hearts, Two of Spades, Six of Spades, Three of Hearts, Ace of Spades, Two of Clubs]; many(v, "cards!(rank of suit, ..)", &L, "6s Jh 2s 6s 3h As 2c"); }
    parsed(v, "cards!(texts)", poker::cards!("6s", "Jh", "2s", "6s", "3h", "As", "2c").collect(), "6s Jh 2s 6s 3h As 2c");
    parsed(v, "cards!(one line)", poker::cards!("6s Jh 2s 6s 3h As 2c").collect(), "6s Jh 2s 6s 3h As 2c");
    { let s = String::from("6s Jh 2s 6s 3h As 2c"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "6s Jh 2s 6s 3h As 2c"); }
    { const L: [poker::Card; 8] = poker::cards!(Ten, Hearts; Seven, Diamonds; Five, Diamonds; Nine, Diamonds; Four, Hearts; Six, Diamonds; Six, Diamonds; Seven, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "Th 7d 5d 9d 4h 6d 6d 7c"); }
    { const L: [poker::Card; 8] = poker::cards![Ten of Hearts, Seven of Diamonds, Five of Diamonds, Nine of Diamonds, Four of Hearts, Six of Diamonds, Six of Diamonds, Seven of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "Th 7d 5d 9d 4h 6d 6d 7c"); }
    parsed(v, "cards!(texts)", poker::cards!("Th", "7d", "5d", "9d", "4h", "6d", "6d", "7c",).collect(), "Th 7d 5d 9d 4h 6d 6d 7c");
    parsed(v, "cards!(one line)", poker::cards!(" Th\r\n7d\r\n5d\r\n9d\r\n4h\r\n6d\r\n6d\r\n7c\n").collect(), "Th 7d 5d 9d 4h 6d 6d 7c");
    { let s = String::from(" Th\r\n7d\r\n5d\r\n9d\r\n4h\r\n6d\r\n6d\r\n7c\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Th 7d 5d 9d 4h 6d 6d 7c"); }
    { const L: [poker::Card; 1] = poker::cards!(Nine, Hearts); many(v, "cards!(rank, suit; ..)", &L, "9h"); }
    { const L: [poker::Card; 1] = poker::cards![Nine of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "9h"); }
    parsed(v, "cards!(one line)", poker::cards!("9h").collect(), "9h");
    { let s = String::from("9h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9h"); }
    { const L: [poker::Card; 2] = poker::cards!(Nine, Hearts; Three, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "9h 3c"); }
    { const L: [poker::Card; 2] = poker::cards![Nine of Hearts, Three of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "9h 3c"); }
    parsed(v, "cards!(texts)", poker::cards!("9h", "3c",).collect(), "9h 3c");
    parsed(v, "cards!(one line)", poker::cards!("9h  3c").collect(), "9h 3c");
    { let s = String::from("9h  3c"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9h 3c"); }
    { const L: [poker::Card; 3] = poker::cards!(Four, Spades; King, Clubs; Nine, Spades); many(v, "cards!(rank, suit; ..)", &L, "4s Kc 9s"); }
    { const L: [poker::Card; 3] = poker::cards![Four of Spades, King of Clubs, Nine of Spades]; many(v, "cards!(rank of suit, ..)", &L, "4s Kc 9s"); }
    parsed(v, "cards!(texts)", poker::cards!("4s", "Kc", "9s").collect(), "4s Kc 9s");
    parsed(v, "cards!(one line)", poker::cards!(" 4s\tKc\t9s\n").collect(), "4s Kc 9s");
    { let s = String::from(" 4s\tKc\t9s\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "4s Kc 9s"); }
    { const L: [poker::Card; 4] = poker::cards!(King, Spades; Two, Clubs; Nine, Clubs; Nine, Diamonds;); many(v, "cards!(rank, suit; ..)", &L, "Ks 2c 9c 9d"); }
    { const L: [poker::Card; 4] = poker::cards![King of Spades, Two of Clubs, Nine of Clubs, Nine of Diamonds,]; many(v, "cards!(rank of suit, ..)", &L, "Ks 2c 9c 9d"); }
    parsed(v, "cards!(texts)", poker::cards!("Ks", "2c", "9c", "9d",).collect(), "Ks 2c 9c 9d");
    parsed(v, "cards!(one line)", poker::cards!("Ks\n2c\n9c\n9d").collect(), "Ks 2c 9c 9d");
    { let s = String::from("Ks\n2c\n9c\n9d"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Ks 2c 9c 9d"); }
}
fn lists_1(v: &mut Vec<Case>) {
    { const L: [poker::Card; 5] = poker::cards!(Two, Clubs; Nine, Spades; King, Clubs; Ace, Spades; Three, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "2c 9s Kc As 3d"); }
    { const L: [poker::Card; 5] = poker::cards![Two of Clubs, Nine of Spades, King of Clubs, Ace of Spades, Three of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "2c 9s Kc As 3d"); }
    parsed(v, "cards!(texts)", poker::cards!("2c", "9s", "Kc", "As", "3d").collect(), "2c 9s Kc As 3d");
    parsed(v, "cards!(one line)", poker::cards!(" 2c 9s Kc As 3d\n").collect(), "2c 9s Kc As 3d");
    { let s = String::from(" 2c 9s Kc As 3d\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "2c 9s Kc As 3d"); }
    { const L: [poker::Card; 6] = poker::cards!(Nine, Hearts; Jack, Diamonds; Three, Hearts; Nine, Diamonds; Queen, Hearts; Two, Hearts;); many(v, "cards!(rank, suit; ..)", &L, "9h Jd 3h 9d Qh 2h"); }
    { const L: [poker::Card; 6] = poker::cards![Nine of Hearts, Jack of Diamonds, Three of Hearts, Nine of Diamonds, Queen of Hearts, Two of Hearts,]; many(v, "cards!(rank of suit, ..)", &L, "9h Jd 3h 9d Qh 2h"); }
    parsed(v, "cards!(texts)", poker::cards!("9h", "Jd", "3h", "9d", "Qh", "2h",).collect(), "9h Jd 3h 9d Qh 2h");
    parsed(v, "cards!(one line)", poker::cards!("9h  Jd  3h  9d  Qh  2h").collect(), "9h Jd 3h 9d Qh 2h");
    { let s = String::from("9h  Jd  3h  9d  Qh  2h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9h Jd 3h 9d Qh 2h"); }
    { const L: [poker::Card; 7] = poker::cards!(Four, Hearts; King, Hearts; Five, Spades; Eight, Hearts; Seven, Diamonds; Two, Spades; Ten, Spades); many(v, "cards!(rank, suit; ..)", &L, "4h Kh 5s 8h 7d 2s Ts"); }
    { const L: [poker::Card; 7] = poker::cards![Four of Hearts, King of Hearts, Five of Spades, Eight of Hearts, Seven of Diamonds, Two of Spades, Ten of Spades]; many(v, "cards!(rank of suit, ..)", &L, "4h Kh 5s 8h 7d 2s Ts"); }
    parsed(v, "cards!(texts)", poker::cards!("4h", "Kh", "5s", "8h", "7d", "2s", "Ts").collect(), "4h Kh 5s 8h 7d 2s Ts");
    parsed(v, "cards!(one line)", poker::cards!("4h\tKh\t5s\t8h\t7d\t2s\tTs").collect(), "4h Kh 5s 8h 7d 2s Ts");
    { let s = String::from("4h\tKh\t5s\t8h\t7d\t2s\tTs"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "4h Kh 5s 8h 7d 2s Ts"); }
    { const L: [poker::Card; 8] = poker::cards!(Two, Spades; Queen, Spades; Queen, Hearts; Eight, Hearts; Jack, Spades; Seven, Clubs; Nine, Spades; Ten, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "2s Qs Qh 8h Js 7c 9s Tc"); }
    { const L: [poker::Card; 8] = poker::cards![Two of Spades, Queen of Spades, Queen of Hearts, Eight of Hearts, Jack of Spades, Seven of Clubs, Nine of Spades, Ten of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "2s Qs Qh 8h Js 7c 9s Tc"); }
    parsed(v, "cards!(texts)", poker::cards!("2s", "Qs", "Qh", "8h", "Js", "7c", "9s", "Tc",).collect(), "2s Qs Qh 8h Js 7c 9s Tc");
    parsed(v, "cards!(one line)", poker::cards!(" 2s\nQs\nQh\n8h\nJs\n7c\n9s\nTc\n").collect(), "2s Qs Qh 8h Js 7c 9s Tc");
    { let s = String::from(" 2s\nQs\nQh\n8h\nJs\n7c\n9s\nTc\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "2s Qs Qh 8h Js 7c 9s Tc"); }
    { const L: [poker::Card; 1] = poker::cards!(Queen, Spades); many(v, "cards!(rank, suit; ..)", &L, "Qs"); }
    { const L: [poker::Card; 1] = poker::cards![Queen of Spades]; many(v, "cards!(rank of suit, ..)", &L, "Qs"); }
    parsed(v, "cards!(one line)", poker::cards!("Qs").collect(), "Qs");
    { let s = String::from("Qs"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Qs"); }
    { const L: [poker::Card; 2] = poker::cards!(Ace, Spades; Queen, Diamonds;); many(v, "cards!(rank, suit; ..)", &L, "As Qd"); }
    { const L: [poker::Card; 2] = poker::cards![Ace of Spades, Queen of Diamonds,]; many(v, "cards!(rank of suit, ..)", &L, "As Qd"); }
    parsed(v, "cards!(texts)", poker::cards!("As", "Qd",).collect(), "As Qd");
    parsed(v, "cards!(one line)", poker::cards!("As Qd").collect(), "As Qd");
    { let s = String::from("As Qd"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "As Qd"); }
    { const L: [poker::Card; 3] = poker::cards!(Queen, Hearts; Three, Clubs; Five, Spades); many(v, "cards!(rank, suit; ..)", &L, "Qh 3c 5s"); }
    { const L: [poker::Card; 3] = poker::cards![Queen of Hearts, Three of Clubs, Five of Spades]; many(v, "cards!(rank of suit, ..)", &L, "Qh 3c 5s"); }
    parsed(v, "cards!(texts)", poker::cards!("Qh", "3c", "5s").collect(), "Qh 3c 5s");
    parsed(v, "cards!(one line)", poker::cards!(" Qh 3c 5s\n").collect(), "Qh 3c 5s");
    { let s = String::from(" Qh 3c 5s\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Qh 3c 5s"); }
    { const L: [poker::Card; 4] = poker::cards!(Seven, Clubs; Three, Spades; King, Hearts; Three, Hearts;); many(v, "cards!(rank, suit; ..)", &L, "7c 3s Kh 3h"); }
    { const L: [poker::Card; 4] = poker::cards![Seven of Clubs, Three of Spades, King of Hearts, Three of Hearts,]; many(v, "cards!(rank of suit, ..)", &L, "7c 3s Kh 3h"); }
    parsed(v, "cards!(texts)", poker::cards!("7c", "3s", "Kh", "3h",).collect(), "7c 3s Kh 3h");
    parsed(v, "cards!(one line)", poker::cards!("7c\r\n3s\r\nKh\r\n3h").collect(), "7c 3s Kh 3h");
    { let s = String::from("7c\r\n3s\r\nKh\r\n3h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "7c 3s Kh 3h"); }
    { const L: [poker::Card; 5] = poker::cards!(Ten, Spades; Three, Diamonds; Five, Diamonds; Two, Clubs; Eight, Hearts); many(v, "cards!(rank, suit; ..)", &L, "Ts 3d 5d 2c 8h"); }
    { const L: [poker::Card; 5] = poker::cards![Ten of Spades, Three of Diamonds, Five of Diamonds, Two of Clubs, Eight of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "Ts 3d 5d 2c 8h"); }
    parsed(v, "cards!(texts)", poker::cards!("Ts", "3d", "5d", "2c", "8h").collect(), "Ts 3d 5d 2c 8h");
    parsed(v, "cards!(one line)", poker::cards!("Ts 3d 5d 2c 8h").collect(), "Ts 3d 5d 2c 8h");
    { let s = String::from("Ts 3d 5d 2c 8h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Ts 3d 5d 2c 8h"); }
    { const L: [poker::Card; 6] = poker::cards!(Queen, Clubs; Two, Spades; Three, Diamonds; King, Diamonds; Queen, Diamonds; Two, Diamonds;); many(v, "cards!(rank, suit; ..)", &L, "Qc 2s 3d Kd Qd 2d"); }
    { const L: [poker::Card; 6] = poker::cards![Queen of Clubs, Two of Spades, Three of Diamonds, King of Diamonds, Queen of Diamonds, Two of Diamonds,]; many(v, "cards!(rank of suit, ..)", &L, "Qc 2s 3d Kd Qd 2d"); }
    parsed(v, "cards!(texts)", poker::cards!("Qc", "2s", "3d", "Kd", "Qd", "2d",).collect(), "Qc 2s 3d Kd Qd 2d");
    parsed(v, "cards!(one line)", poker::cards!(" Qc  2s  3d  Kd  Qd  2d\n").collect(), "Qc 2s 3d Kd Qd 2d");
    { let s = String::from(" Qc  2s  3d  Kd  Qd  2d\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Qc 2s 3d Kd Qd 2d"); }
    { const L: [poker::Card; 7] = poker::cards!(Ace, Clubs; Eight, Hearts; Four, Hearts; Queen, Clubs; King, Clubs; Six, Clubs; Five, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "Ac 8h 4h Qc Kc 6c 5d"); }
    { const L: [poker::Card; 7] = poker::cards![Ace of Clubs, Eight of Hearts, Four of Hearts, Queen of Clubs, King of Clubs, Six of Clubs, Five of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "Ac 8h 4h Qc Kc 6c 5d"); }
    parsed(v, "cards!(texts)", poker::cards!("Ac", "8h", "4h", "Qc", "Kc", "6c", "5d").collect(), "Ac 8h 4h Qc Kc 6c 5d");
    parsed(v, "cards!(one line)", poker::cards!("Ac\t8h\t4h\tQc\tKc\t6c\t5d").collect(), "Ac 8h 4h Qc Kc 6c 5d");
    { let s = String::from("Ac\t8h\t4h\tQc\tKc\t6c\t5d"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Ac 8h 4h Qc Kc 6c 5d"); }
    { const L: [poker::Card; 8] = poker::cards!(Four, Diamonds; Jack, Hearts; Two, Clubs; Five, Diamonds; Ten, Hearts; Five, Diamonds; Three, Diamonds; Three, Spades;); many(v, "cards!(rank, suit; ..)", &L, "4d Jh 2c 5d Th 5d 3d 3s"); }
    { const L: [poker::Card; 8] = poker::cards![Four of Diamonds, Jack of Hearts, Two of Clubs, Five of Diamonds, Ten of Hearts, Five of Diamonds, Three of Diamonds, Three of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "4d Jh 2c 5d Th 5d 3d 3s"); }
    parsed(v, "cards!(texts)", poker::cards!("4d", "Jh", "2c", "5d", "Th", "5d", "3d", "3s",).collect(), "4d Jh 2c 5d Th 5d 3d 3s");
    parsed(v, "cards!(one line)", poker::cards!("4d\nJh\n2c\n5d\nTh\n5d\n3d\n3s").collect(), "4d Jh 2c 5d Th 5d 3d 3s");
    { let s = String::from("4d\nJh\n2c\n5d\nTh\n5d\n3d\n3s"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "4d Jh 2c 5d Th 5d 3d 3s"); }
    { const L: [poker::Card; 1] = poker::cards!(Queen, Hearts); many(v, "cards!(rank, suit; ..)", &L, "Qh"); }
    { const L: [poker::Card; 1] = poker::cards![Queen of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "Qh"); }
    parsed(v, "cards!(one line)", poker::cards!(" Qh\n").collect(), "Qh");
    { let s = String::from(" Qh\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Qh"); }
    { const L: [poker::Card; 2] = poker::cards!(Four, Hearts; Six, Hearts;); many(v, "cards!(rank, suit; ..)", &L, "4h 6h"); }
    { const L: [poker::Card; 2] = poker::cards![Four of Hearts, Six of Hearts,]; many(v, "cards!(rank of suit, ..)", &L, "4h 6h"); }
    parsed(v, "cards!(texts)", poker::cards!("4h", "6h",).collect(), "4h 6h");
    parsed(v, "cards!(one line)", poker::cards!("4h 6h").collect(), "4h 6h");
    { let s = String::from("4h 6h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "4h 6h"); }
    { const L: [poker::Card; 3] = poker::cards!(Eight, Clubs; Eight, Spades; Two, Spades); many(v, "cards!(rank, suit; ..)", &L, "8c 8s 2s"); }
    { const L: [poker::Card; 3] = poker::cards![Eight of Clubs, Eight of Spades, Two of Spades]; many(v, "cards!(rank of suit, ..)", &L, "8c 8s 2s"); }
    parsed(v, "cards!(texts)", poker::cards!("8c", "8s", "2s").collect(), "8c 8s 2s");
    parsed(v, "cards!(one line)", poker::cards!("8c 8s 2s").collect(), "8c 8s 2s");
    { let s = String::from("8c 8s 2s"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "8c 8s 2s"); }
    { const L: [poker::Card; 4] = poker::cards!(Eight, Hearts; Nine, Hearts; King, Spades; Nine, Hearts;); many(v, "cards!(rank, suit; ..)", &L, "8h 9h Ks 9h"); }
    { const L: [poker::Card; 4] = poker::cards![Eight of Hearts, Nine of Hearts, King of Spades, Nine of Hearts,]; many(v, "cards!(rank of suit, ..)", &L, "8h 9h Ks 9h"); }
    parsed(v, "cards!(texts)", poker::cards!("8h", "9h", "Ks", "9h",).collect(), "8h 9h Ks 9h");
    parsed(v, "cards!(one line)", poker::cards!(" 8h\r\n9h\r\nKs\r\n9h\n").collect(), "8h 9h Ks 9h");
    { let s = String::from(" 8h\r\n9h\r\nKs\r\n9h\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "8h 9h Ks 9h"); }
    { const L: [poker::Card; 5] = poker::cards!(Nine, Hearts; Six, Clubs; Two, Spades; Two, Diamonds; Two, Hearts); many(v, "cards!(rank, suit; ..)", &L, "9h 6c 2s 2d 2h"); }
    { const L: [poker::Card; 5] = poker::cards![Nine of Hearts, Six of Clubs, Two of Spades, Two of Diamonds, Two of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "9h 6c 2s 2d 2h"); }
    parsed(v, "cards!(texts)", poker::cards!("9h", "6c", "2s", "2d", "2h").collect(), "9h 6c 2s 2d 2h");
    parsed(v, "cards!(one line)", poker::cards!("9h 6c 2s 2d 2h").collect(), "9h 6c 2s 2d 2h");
    { let s = String::from("9h 6c 2s 2d 2h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9h 6c 2s 2d 2h"); }
    { const L: [poker::Card; 6] = poker::cards!(King, Hearts; Five, Clubs; Eight, Diamonds; Queen, Spades; Six, Clubs; Ten, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "Kh 5c 8d Qs 6c Tc"); }
    { const L: [poker::Card; 6] = poker::cards![King of Hearts, Five of Clubs, Eight of Diamonds, Queen of Spades, Six of Clubs, Ten of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "Kh 5c 8d Qs 6c Tc"); }
    parsed(v, "cards!(texts)", poker::cards!("Kh", "5c", "8d", "Qs", "6c", "Tc",).collect(), "Kh 5c 8d Qs 6c Tc");
    parsed(v, "cards!(one line)", poker::cards!("Kh  5c  8d  Qs  6c  Tc").collect(), "Kh 5c 8d Qs 6c Tc");
    { let s = String::from("Kh  5c  8d  Qs  6c  Tc"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Kh 5c 8d Qs 6c Tc"); }
    { const L: [poker::Card; 7] = poker::cards!(Eight, Clubs; Three, Spades; Ace, Diamonds; Five, Hearts; Three, Diamonds; Eight, Spades; Queen, Clubs); many(v, "cards!(rank, suit; ..)", &L, "8c 3s Ad 5h 3d 8s Qc"); }
    { const L: [poker::Card; 7] = poker::cards![Eight of Clubs, Three of Spades, Ace of Diamonds, Five of Hearts, Three of Diamonds, Eight of Spades, Queen of Clubs]; many(v, "cards!(rank of suit, ..)", &L, "8c 3s Ad 5h 3d 8s Qc"); }
    parsed(v, "cards!(texts)", poker::cards!("8c", "3s", "Ad", "5h", "3d", "8s", "Qc").collect(), "8c 3s Ad 5h 3d 8s Qc");
    parsed(v, "cards!(one line)", poker::cards!(" 8c\t3s\tAd\t5h\t3d\t8s\tQc\n").collect(), "8c 3s Ad 5h 3d 8s Qc");
    { let s = String::from(" 8c\t3s\tAd\t5h\t3d\t8s\tQc\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "8c 3s Ad 5h 3d 8s Qc"); }
    { const L: [poker::Card; 8] = poker::cards!(Three, Spades; Six, Spades; Three, Diamonds; Nine, Hearts; Eight, Diamonds; Four, Hearts; Eight, Hearts; Five, Diamonds;); many(v, "cards!(rank, suit; ..)", &L, "3s 6s 3d 9h 8d 4h 8h 5d"); }
    { const L: [poker::Card; 8] = poker::cards![Three of Spades, Six of Spades, Three of Diamonds, Nine of Hearts, Eight of Diamonds, Four of Hearts, Eight of Hearts, Five of Diamonds,]; many(v, "cards!(rank of suit, ..)", &L, "3s 6s 3d 9h 8d 4h 8h 5d"); }
    parsed(v, "cards!(texts)", poker::cards!("3s", "6s", "3d", "9h", "8d", "4h", "8h", "5d",).collect(), "3s 6s 3d 9h 8d 4h 8h 5d");
    parsed(v, "cards!(one line)", poker::cards!("3s\n6s\n3d\n9h\n8d\n4h\n8h\n5d").collect(), "3s 6s 3d 9h 8d 4h 8h 5d");
    { let s = String::from("3s\n6s\n3d\n9h\n8d\n4h\n8h\n5d"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "3s 6s 3d 9h 8d 4h 8h 5d"); }
}
fn lists_2(v: &mut Vec<Case>) {
    { const L: [poker::Card; 1] = poker::cards!(Four, Clubs); many(v, "cards!(rank, suit; ..)", &L, "4c"); }
    { const L: [poker::Card; 1] = poker::cards![Four of Clubs]; many(v, "cards!(rank of suit, ..)", &L, "4c"); }
    parsed(v, "cards!(one line)", poker::cards!(" 4c\n").collect(), "4c");
    { let s = String::from(" 4c\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "4c"); }
    { const L: [poker::Card; 2] = poker::cards!(Four, Clubs; Eight, Hearts;); many(v, "cards!(rank, suit; ..)", &L, "4c 8h"); }
    { const L: [poker::Card; 2] = poker::cards![Four of Clubs, Eight of Hearts,]; many(v, "cards!(rank of suit, ..)", &L, "4c 8h"); }
    parsed(v, "cards!(texts)", poker::cards!("4c", "8h",).collect(), "4c 8h");
    parsed(v, "cards!(one line)", poker::cards!("4c  8h").collect(), "4c 8h");
    { let s = String::from("4c  8h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "4c 8h"); }
    { const L: [poker::Card; 3] = poker::cards!(Eight, Diamonds; Ten, Clubs; Five, Spades); many(v, "cards!(rank, suit; ..)", &L, "8d Tc 5s"); }
    { const L: [poker::Card; 3] = poker::cards![Eight of Diamonds, Ten of Clubs, Five of Spades]; many(v, "cards!(rank of suit, ..)", &L, "8d Tc 5s"); }
    parsed(v, "cards!(texts)", poker::cards!("8d", "Tc", "5s").collect(), "8d Tc 5s");
    parsed(v, "cards!(one line)", poker::cards!("8d\tTc\t5s").collect(), "8d Tc 5s");
    { let s = String::from("8d\tTc\t5s"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "8d Tc 5s"); }
    { const L: [poker::Card; 4] = poker::cards!(Eight, Hearts; Four, Diamonds; Seven, Diamonds; Queen, Spades;); many(v, "cards!(rank, suit; ..)", &L, "8h 4d 7d Qs"); }
    { const L: [poker::Card; 4] = poker::cards![Eight of Hearts, Four of Diamonds, Seven of Diamonds, Queen of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "8h 4d 7d Qs"); }
    parsed(v, "cards!(texts)", poker::cards!("8h", "4d", "7d", "Qs",).collect(), "8h 4d 7d Qs");
    parsed(v, "cards!(one line)", poker::cards!(" 8h\n4d\n7d\nQs\n").collect(), "8h 4d 7d Qs");
    { let s = String::from(" 8h\n4d\n7d\nQs\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "8h 4d 7d Qs"); }
    { const L: [poker::Card; 5] = poker::cards!(Nine, Diamonds; Four, Diamonds; Eight, Spades; Five, Hearts; Queen, Spades); many(v, "cards!(rank, suit; ..)", &L, "9d 4d 8s 5h Qs"); }
    { const L: [poker::Card; 5] = poker::cards![Nine of Diamonds, Four of Diamonds, Eight of Spades, Five of Hearts, Queen of Spades]; many(v, "cards!(rank of suit, ..)", &L, "9d 4d 8s 5h Qs"); }
    parsed(v, "cards!(texts)", poker::cards!("9d", "4d", "8s", "5h", "Qs").collect(), "9d 4d 8s 5h Qs");
    parsed(v, "cards!(one line)", poker::cards!("9d \t 4d \t 8s \t 5h \t Qs").collect(), "9d 4d 8s 5h Qs");
    { let s = String::from("9d \t 4d \t 8s \t 5h \t Qs"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9d 4d 8s 5h Qs"); }
    { const L: [poker::Card; 6] = poker::cards!(Eight, Diamonds; Two, Hearts; Nine, Diamonds; Six, Diamonds; Jack, Clubs; Six, Spades;); many(v, "cards!(rank, suit; ..)", &L, "8d 2h 9d 6d Jc 6s"); }
    { const L: [poker::Card; 6] = poker::cards![Eight of Diamonds, Two of Hearts, Nine of Diamonds, Six of Diamonds, Jack of Clubs, Six of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "8d 2h 9d 6d Jc 6s"); }
    parsed(v, "cards!(texts)", poker::cards!("8d", "2h", "9d", "6d", "Jc", "6s",).collect(), "8d 2h 9d 6d Jc 6s");
    parsed(v, "cards!(one line)", poker::cards!("8d 2h 9d 6d Jc 6s").collect(), "8d 2h 9d 6d Jc 6s");
    { let s = String::from("8d 2h 9d 6d Jc 6s"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "8d 2h 9d 6d Jc 6s"); }
    { const L: [poker::Card; 7] = poker::cards!(Three, Diamonds; Three, Clubs; Ace, Clubs; Ace, Spades; Six, Diamonds; King, Diamonds; Nine, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "3d 3c Ac As 6d Kd 9d"); }
    { const L: [poker::Card; 7] = poker::cards![Three of Diamonds, Three of Clubs, Ace of Clubs, Ace of Spades, Six of Diamonds, King of Diamonds, Nine of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "3d 3c Ac As 6d Kd 9d"); }
    parsed(v, "cards!(texts)", poker::cards!("3d", "3c", "Ac", "As", "6d", "Kd", "9d").collect(), "3d 3c Ac As 6d Kd 9d");
    parsed(v, "cards!(one line)", poker::cards!(" 3d 3c Ac As 6d Kd 9d\n").collect(), "3d 3c Ac As 6d Kd 9d");
    { let s = String::from(" 3d 3c Ac As 6d Kd 9d\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "3d 3c Ac As 6d Kd 9d"); }
    { const L: [poker::Card; 8] = poker::cards!(Five, Diamonds; Ten, Spades; Queen, Hearts; Nine, Spades; Five, Hearts; Jack, Hearts; Nine, Clubs; Ten, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "5d Ts Qh 9s 5h Jh 9c Tc"); }
    { const L: [poker::Card; 8] = poker::cards![Five of Diamonds, Ten of Spades, Queen of Hearts, Nine of Spades, Five of Hearts, Jack of Hearts, Nine of Clubs, Ten of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "5d Ts Qh 9s 5h Jh 9c Tc"); }
    parsed(v, "cards!(texts)", poker::cards!("5d", "Ts", "Qh", "9s", "5h", "Jh", "9c", "Tc",).collect(), "5d Ts Qh 9s 5h Jh 9c Tc");
    parsed(v, "cards!(one line)", poker::cards!("5d\r\nTs\r\nQh\r\n9s\r\n5h\r\nJh\r\n9c\r\nTc").collect(), "5d Ts Qh 9s 5h Jh 9c Tc");
    { let s = String::from("5d\r\nTs\r\nQh\r\n9s\r\n5h\r\nJh\r\n9c\r\nTc"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "5d Ts Qh 9s 5h Jh 9c Tc"); }
    { const L: [poker::Card; 13] = poker::cards!(Four, Clubs; Nine, Diamonds; Ten, Diamonds; Three, Hearts; Ace, Clubs; Queen, Clubs; Queen, Spades; Three, Spades; King, Spades; Queen, Spades; Seven, Clubs; Two, Diamonds; Nine, Hearts); many(v, "cards!(rank, suit; ..)", &L, "4c 9d Td 3h Ac Qc Qs 3s Ks Qs 7c 2d 9h"); }
    { const L: [poker::Card; 13] = poker::cards![Four of Clubs, Nine of Diamonds, Ten of Diamonds, Three of Hearts, Ace of Clubs, Queen of Clubs, Queen of Spades, Three of Spades, King of Spades, Queen of Spades, Seven of Clubs, Two of Diamonds, Nine of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "4c 9d Td 3h Ac Qc Qs 3s Ks Qs 7c 2d 9h"); }
    parsed(v, "cards!(texts)", poker::cards!("4c", "9d", "Td", "3h", "Ac", "Qc", "Qs", "3s", "Ks", "Qs", "7c", "2d", "9h").collect(), "4c 9d Td 3h Ac Qc Qs 3s Ks Qs 7c 2d 9h");
    parsed(v, "cards!(one line)", poker::cards!("4c 9d Td 3h Ac Qc Qs 3s Ks Qs 7c 2d 9h").collect(), "4c 9d Td 3h Ac Qc Qs 3s Ks Qs 7c 2d 9h");
    { let s = String::from("4c 9d Td 3h Ac Qc Qs 3s Ks Qs 7c 2d 9h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "4c 9d Td 3h Ac Qc Qs 3s Ks Qs 7c 2d 9h"); }
    { const L: [poker::Card; 20] = poker::cards!(Three, Hearts; Ace, Diamonds; Nine, Diamonds; King, Spades; Ace, Clubs; Two, Diamonds; Ten, Clubs; Seven, Hearts; Ten, Spades; Four, Spades; Three, Spades; King, Hearts; Seven, Diamonds; Eight, Hearts; Six, Spades; Eight, Hearts; Three, Clubs; Five, Spades; Five, Clubs; Nine, Hearts;); many(v, "cards!(rank, suit; ..)", &L, "3h Ad 9d Ks Ac 2d Tc 7h Ts 4s 3s Kh 7d 8h 6s 8h 3c 5s 5c 9h"); }
    { const L: [poker::Card; 20] = poker::cards![Three of Hearts, Ace of Diamonds, Nine of Diamonds, King of Spades, Ace of Clubs, Two of Diamonds, Ten of Clubs, Seven of Hearts, Ten of Spades, Four of Spades, Three of Spades, King of Hearts, Seven of Diamonds, Eight of Hearts, Six of Spades, Eight of Hearts, Three of Clubs, Five of Spades, Five of Clubs, Nine of Hearts,]; many(v, "cards!(rank of suit, ..)", &L, "3h Ad 9d Ks Ac 2d Tc 7h Ts 4s 3s Kh 7d 8h 6s 8h 3c 5s 5c 9h"); }
    parsed(v, "cards!(texts)", poker::cards!("3h", "Ad", "9d", "Ks", "Ac", "2d", "Tc", "7h", "Ts", "4s", "3s", "Kh", "7d", "8h", "6s", "8h", "3c", "5s", "5c", "9h",).collect(), "3h Ad 9d Ks Ac 2d Tc 7h Ts 4s 3s Kh 7d 8h 6s 8h 3c 5s 5c 9h");
    parsed(v, "cards!(one line)", poker::cards!(" 3h  Ad  9d  Ks  Ac  2d  Tc  7h  Ts  4s  3s  Kh  7d  8h  6s  8h  3c  5s  5c  9h\n").collect(), "3h Ad 9d Ks Ac 2d Tc 7h Ts 4s 3s Kh 7d 8h 6s 8h 3c 5s 5c 9h");
    { let s = String::from(" 3h  Ad  9d  Ks  Ac  2d  Tc  7h  Ts  4s  3s  Kh  7d  8h  6s  8h  3c  5s  5c  9h\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "3h Ad 9d Ks Ac 2d Tc 7h Ts 4s 3s Kh 7d 8h 6s 8h 3c 5s 5c 9h"); }
    { const L: [poker::Card; 52] = poker::cards!(Five, Hearts; King, Hearts; Two, Clubs; Queen, Clubs; Ace, Hearts; Five, Spades; Seven, Hearts; Eight, Hearts; Jack, Spades; Jack, Diamonds; Ace, Diamonds; Two, Diamonds; Six, Hearts; Two, Hearts; Eight, Clubs; Ace, Clubs; Four, Hearts; Ten, Spades; King, Spades; Queen, Hearts; Queen, Spades; Six, Clubs; King, Diamonds; Six, Diamonds; Nine, Clubs; King, Clubs; Eight, Spades; Nine, Spades; Three, Spades; Five, Diamonds; Six, Spades; Seven, Spades; Four, Diamonds; Three, Clubs; Ten, Hearts; Three, Hearts; Jack, Clubs; Seven, Clubs; Nine, Hearts; Queen, Diamonds; Jack, Hearts; Ace, Spades; Five, Clubs; Two, Spades; Ten, Clubs; Ten, Diamonds; Four, Spades; Three, Diamonds; Seven, Diamonds; Nine, Diamonds; Eight, Diamonds; Four, Clubs); many(v, "cards!(rank, suit; ..)", &L, "5h Kh 2c Qc Ah 5s 7h 8h Js Jd Ad 2d 6h 2h 8c Ac 4h Ts Ks Qh Qs 6c Kd 6d 9c Kc 8s 9s 3s 5d 6s 7s 4d 3c Th 3h Jc 7c 9h Qd Jh As 5c 2s Tc Td 4s 3d 7d 9d 8d 4c"); }
    { const L: [poker::Card; 52] = poker::cards![Five of Hearts, King of Hearts, Two of Clubs, Queen of Clubs, Ace of Hearts, Five of Spades, Seven of Hearts, Eight of Hearts, Jack of Spades, Jack of Diamonds, Ace of Diamonds, Two of Diamonds, Six of Hearts, Two of Hearts, Eight of Clubs, Ace of Clubs, Four of Hearts, Ten of Spades, King of Spades, Queen of Hearts, Queen of Spades, Six of Clubs, King of Diamonds, Six of Diamonds, Nine of Clubs, King of Clubs, Eight of Spades, Nine of Spades, Three of Spades, Five of Diamonds, Six of Spades, Seven of Spades, Four of Diamonds, Three of Clubs, Ten of Hearts, Three of Hearts, Jack of Clubs, Seven of Clubs, Nine of Hearts, Queen of Diamonds, Jack of Hearts, Ace of Spades, Five of Clubs, Two of Spades, Ten of Clubs, Ten of Diamonds, Four of Spades, Three of Diamonds, Seven of Diamonds, Nine of Diamonds, Eight of Diamonds, Four of Clubs]; many(v, "cards!(rank of suit, ..)", &L, "5h Kh 2c Qc Ah 5s 7h 8h Js Jd Ad 2d 6h 2h 8c Ac 4h Ts Ks Qh Qs 6c Kd 6d 9c Kc 8s 9s 3s 5d 6s 7s 4d 3c Th 3h Jc 7c 9h Qd Jh As 5c 2s Tc Td 4s 3d 7d 9d 8d 4c"); }
    parsed(v, "cards!(texts)", poker::cards!("5h", "Kh", "2c", "Qc", "Ah", "5s", "7h", "8h", "Js", "Jd", "Ad", "2d", "6h", "2h", "8c", "Ac", "4h", "Ts", "Ks", "Qh", "Qs", "6c", "Kd", "6d", "9c", "Kc", "8s", "9s", "3s", "5d", "6s", "7s", "4d", "3c", "Th", "3h", "Jc", "7c", "9h", "Qd", "Jh", "As", "5c", "2s", "Tc", "Td", "4s", "3d", "7d", "9d", "8d", "4c").collect(), "5h Kh 2c Qc Ah 5s 7h 8h Js Jd Ad 2d 6h 2h 8c Ac 4h Ts Ks Qh Qs 6c Kd 6d 9c Kc 8s 9s 3s 5d 6s 7s 4d 3c Th 3h Jc 7c 9h Qd Jh As 5c 2s Tc Td 4s 3d 7d 9d 8d 4c");
    parsed(v, "cards!(one line)", poker::cards!("5h\tKh\t2c\tQc\tAh\t5s\t7h\t8h\tJs\tJd\tAd\t2d\t6h\t2h\t8c\tAc\t4h\tTs\tKs\tQh\tQs\t6c\tKd\t6d\t9c\tKc\t8s\t9s\t3s\t5d\t6s\t7s\t4d\t3c\tTh\t3h\tJc\t7c\t9h\tQd\tJh\tAs\t5c\t2s\tTc\tTd\t4s\t3d\t7d\t9d\t8d\t4c").collect(), "5h Kh 2c Qc Ah 5s 7h 8h Js Jd Ad 2d 6h 2h 8c Ac 4h Ts Ks Qh Qs 6c Kd 6d 9c Kc 8s 9s 3s 5d 6s 7s 4d 3c Th 3h Jc 7c 9h Qd Jh As 5c 2s Tc Td 4s 3d 7d 9d 8d 4c");
    { let s = String::from("5h\tKh\t2c\tQc\tAh\t5s\t7h\t8h\tJs\tJd\tAd\t2d\t6h\t2h\t8c\tAc\t4h\tTs\tKs\tQh\tQs\t6c\tKd\t6d\t9c\tKc\t8s\t9s\t3s\t5d\t6s\t7s\t4d\t3c\tTh\t3h\tJc\t7c\t9h\tQd\tJh\tAs\t5c\t2s\tTc\tTd\t4s\t3d\t7d\t9d\t8d\t4c"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "5h Kh 2c Qc Ah 5s 7h 8h Js Jd Ad 2d 6h 2h 8c Ac 4h Ts Ks Qh Qs 6c Kd 6d 9c Kc 8s 9s 3s 5d 6s 7s 4d 3c Th 3h Jc 7c 9h Qd Jh As 5c 2s Tc Td 4s 3d 7d 9d 8d 4c"); }
    { const L: [poker::Card; 104] = poker::cards!(Three, Hearts; Four, Diamonds; Three, Hearts; Nine, Hearts; Three, Hearts; Two, Spades; Jack, Clubs; Four, Hearts; Four, Hearts; Queen, Diamonds; King, Spades; Ace, Hearts; Four, Spades; Ace, Hearts; Five, Hearts; Eight, Spades; Two, Spades; Ace, Clubs; Seven, Spades; Three, Diamonds; Queen, Diamonds; Eight, Hearts; Eight, Spades; Six, Clubs; Three, Diamonds; Jack, Diamonds; Eight, Clubs; Jack, Spades; Five, Clubs; Seven, Spades; King, Diamonds; Nine, Clubs; Seven, Diamonds; Eight, Diamonds; Two, Hearts; Seven, Spades; Five, Clubs; Three, Hearts; Five, Hearts; Eight, Clubs; Eight, Spades; Ace, Spades; Two, Diamonds; Jack, Hearts; Five, Hearts; Eight, Spades; Ace, Hearts; King, Spades; Queen, Spades; Ten, Diamonds; Seven, Hearts; Two, Spades; Ten, Hearts; Eight, Hearts; Seven, Spades; Two, Hearts; Queen, Hearts; Four, Hearts; Eight, Spades; Five, Diamonds; Seven, Clubs; Four, Spades; Eight, Hearts; Two, Diamonds; Eight, Clubs; Two, Spades; Eight, Hearts; Queen, Clubs; King, Diamonds; Nine, Clubs; Queen, Hearts; Two, Spades; Four, Hearts; Two, Clubs; Four, Spades; King, Diamonds; Five, Clubs; Queen, Spades; Jack, Hearts; Six, Spades; Jack, Diamonds; Queen, Spades; Jack, Hearts; Eight, Spades; Two, Hearts; Two, Diamonds; Three, Diamonds; Ten, Hearts; Ten, Spades; Two, Clubs; Four, Clubs; Seven, Clubs; Jack, Spades; Jack, Diamonds; Three, Hearts; Jack, Hearts; Ten, Spades; Six, Diamonds; Nine, Clubs; Four, Hearts; Jack, Spades; Eight, Diamonds; Six, Spades; Jack, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "3h 4d 3h 9h 3h 2s Jc 4h 4h Qd Ks Ah 4s Ah 5h 8s 2s Ac 7s 3d Qd 8h 8s 6c 3d Jd 8c Js 5c 7s Kd 9c 7d 8d 2h 7s 5c 3h 5h 8c 8s As 2d Jh 5h 8s Ah Ks Qs Td 7h 2s Th 8h 7s 2h Qh 4h 8s 5d 7c 4s 8h 2d 8c 2s 8h Qc Kd 9c Qh 2s 4h 2c 4s Kd 5c Qs Jh 6s Jd Qs Jh 8s 2h 2d 3d Th Ts 2c 4c 7c Js Jd 3h Jh Ts 6d 9c 4h Js 8d 6s Jc"); }
    { const L: [poker::Card; 104] = poker::cards![Three of Hearts, Four of Diamonds, Three of Hearts, Nine of Hearts, Three of Hearts, Two of Spades, Jack of Clubs, Four of Hearts, Four of Hearts, Queen of Diamonds, King of Spades, Ace of Hearts, Four of Spades, Ace of Hearts, Five of Hearts, Eight of Spades, Two of Spades, Ace of Clubs, Seven of Spades, Three of Diamonds, Queen of Diamonds, Eight of Hearts, Eight of Spades, Six of Clubs, Three of Diamonds, Jack of Diamonds, Eight of Clubs, Jack of Spades, Five of Clubs, Seven of Spades, King of Diamonds, Nine of Clubs, Seven of Diamonds, Eight of Diamonds, Two of Hearts, Seven of Spades, Five of Clubs, Three of Hearts, Five of Hearts, Eight of Clubs, Eight of Spades, Ace of Spades, Two of Diamonds, Jack of Hearts, Five of Hearts, Eight of Spades, Ace of Hearts, King of Spades, Queen of Spades, Ten of Diamonds, Seven of Hearts, Two of Spades, Ten of Hearts, Eight of Hearts, Seven of Spades, Two of Hearts, Queen of Hearts, Four of Hearts, Eight of Spades, Five of Diamonds, Seven of Clubs, Four of Spades, Eight of Hearts, Two of Diamonds, Eight of Clubs, Two of Spades, Eight of Hearts, Queen of Clubs, King of Diamonds, Nine of Clubs, Queen of Hearts, Two of Spades, Four of Hearts, Two of Clubs, Four of Spades, King of Diamonds, Five of Clubs, Queen of Spades, Jack of Hearts, Six of Spades, Jack of Diamonds, Queen of Spades, Jack of Hearts, Eight of Spades, Two of Hearts, Two of Diamonds, Three of Diamonds, Ten of Hearts, Ten of Spades, Two of Clubs, Four of Clubs, Seven of Clubs, Jack of Spades, Jack of Diamonds, Three of Hearts, Jack of Hearts, Ten of Spades, Six of Diamonds, Nine of Clubs, Four of Hearts, Jack of Spades, Eight of Diamonds, Six of Spades, Jack of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "3h 4d 3h 9h 3h 2s Jc 4h 4h Qd Ks Ah 4s Ah 5h 8s 2s Ac 7s 3d Qd 8h 8s 6c 3d Jd 8c Js 5c 7s Kd 9c 7d 8d 2h 7s 5c 3h 5h 8c 8s As 2d Jh 5h 8s Ah Ks Qs Td 7h 2s Th 8h 7s 2h Qh 4h 8s 5d 7c 4s 8h 2d 8c 2s 8h Qc Kd 9c Qh 2s 4h 2c 4s Kd 5c Qs Jh 6s Jd Qs Jh 8s 2h 2d 3d Th Ts 2c 4c 7c Js Jd 3h Jh Ts 6d 9c 4h Js 8d 6s Jc"); }
    parsed(v, "cards!(texts)", poker::cards!("3h", "4d", "3h", "9h", "3h", "2s", "Jc", "4h", "4h", "Qd", "Ks", "Ah", "4s", "Ah", "5h", "8s", "2s", "Ac", "7s", "3d", "Qd", "8h", "8s", "6c", "3d", "Jd", "8c", "Js", "5c", "7s", "Kd", "9c", "7d", "8d", "2h", "7s", "5c", "3h", "5h", "8c", "8s", "As", "2d", "Jh", "5h", "8s", "Ah", "Ks", "Qs", "Td", "7h", "2s", "Th", "8h", "7s", "2h", "Qh", "4h", "8s", "5d", "7c", "4s", "8h", "2d", "8c", "2s", "8h", "Qc", "Kd", "9c", "Qh", "2s", "4h", "2c", "4s", "Kd", "5c", "Qs", "Jh", "6s", "Jd", "Qs", "Jh", "8s", "2h", "2d", "3d", "Th", "Ts", "2c", "4c", "7c", "Js", "Jd", "3h", "Jh", "Ts", "6d", "9c", "4h", "Js", "8d", "6s", "Jc",).collect(), "3h 4d 3h 9h 3h 2s Jc 4h 4h Qd Ks Ah 4s Ah 5h 8s 2s Ac 7s 3d Qd 8h 8s 6c 3d Jd 8c Js 5c 7s Kd 9c 7d 8d 2h 7s 5c 3h 5h 8c 8s As 2d Jh 5h 8s Ah Ks Qs Td 7h 2s Th 8h 7s 2h Qh 4h 8s 5d 7c 4s 8h 2d 8c 2s 8h Qc Kd 9c Qh 2s 4h 2c 4s Kd 5c Qs Jh 6s Jd Qs Jh 8s 2h 2d 3d Th Ts 2c 4c 7c Js Jd 3h Jh Ts 6d 9c 4h Js 8d 6s Jc");
    parsed(v, "cards!(one line)", poker::cards!("3h\n4d\n3h\n9h\n3h\n2s\nJc\n4h\n4h\nQd\nKs\nAh\n4s\nAh\n5h\n8s\n2s\nAc\n7s\n3d\nQd\n8h\n8s\n6c\n3d\nJd\n8c\nJs\n5c\n7s\nKd\n9c\n7d\n8d\n2h\n7s\n5c\n3h\n5h\n8c\n8s\nAs\n2d\nJh\n5h\n8s\nAh\nKs\nQs\nTd\n7h\n2s\nTh\n8h\n7s\n2h\nQh\n4h\n8s\n5d\n7c\n4s\n8h\n2d\n8c\n2s\n8h\nQc\nKd\n9c\nQh\n2s\n4h\n2c\n4s\nKd\n5c\nQs\nJh\n6s\nJd\nQs\nJh\n8s\n2h\n2d\n3d\nTh\nTs\n2c\n4c\n7c\nJs\nJd\n3h\nJh\nTs\n6d\n9c\n4h\nJs\n8d\n6s\nJc").collect(), "3h 4d 3h 9h 3h 2s Jc 4h 4h Qd Ks Ah 4s Ah 5h 8s 2s Ac 7s 3d Qd 8h 8s 6c 3d Jd 8c Js 5c 7s Kd 9c 7d 8d 2h 7s 5c 3h 5h 8c 8s As 2d Jh 5h 8s Ah Ks Qs Td 7h 2s Th 8h 7s 2h Qh 4h 8s 5d 7c 4s 8h 2d 8c 2s 8h Qc Kd 9c Qh 2s 4h 2c 4s Kd 5c Qs Jh 6s Jd Qs Jh 8s 2h 2d 3d Th Ts 2c 4c 7c Js Jd 3h Jh Ts 6d 9c 4h Js 8d 6s Jc");
    { let s = String::from("3h\n4d\n3h\n9h\n3h\n2s\nJc\n4h\n4h\nQd\nKs\nAh\n4s\nAh\n5h\n8s\n2s\nAc\n7s\n3d\nQd\n8h\n8s\n6c\n3d\nJd\n8c\nJs\n5c\n7s\nKd\n9c\n7d\n8d\n2h\n7s\n5c\n3h\n5h\n8c\n8s\nAs\n2d\nJh\n5h\n8s\nAh\nKs\nQs\nTd\n7h\n2s\nTh\n8h\n7s\n2h\nQh\n4h\n8s\n5d\n7c\n4s\n8h\n2d\n8c\n2s\n8h\nQc\nKd\n9c\nQh\n2s\n4h\n2c\n4s\nKd\n5c\nQs\nJh\n6s\nJd\nQs\nJh\n8s\n2h\n2d\n3d\nTh\nTs\n2c\n4c\n7c\nJs\nJd\n3h\nJh\nTs\n6d\n9c\n4h\nJs\n8d\n6s\nJc"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "3h 4d 3h 9h 3h 2s Jc 4h 4h Qd Ks Ah 4s Ah 5h 8s 2s Ac 7s 3d Qd 8h 8s 6c 3d Jd 8c Js 5c 7s Kd 9c 7d 8d 2h 7s 5c 3h 5h 8c 8s As 2d Jh 5h 8s Ah Ks Qs Td 7h 2s Th 8h 7s 2h Qh 4h 8s 5d 7c 4s 8h 2d 8c 2s 8h Qc Kd 9c Qh 2s 4h 2c 4s Kd 5c Qs Jh 6s Jd Qs Jh 8s 2h 2d 3d Th Ts 2c 4c 7c Js Jd 3h Jh Ts 6d 9c 4h Js 8d 6s Jc"); }
    { const L: [poker::Card; 150] = poker::cards!(Jack, Diamonds; Ace, Diamonds; Eight, Spades; Ten, Spades; Three, Hearts; King, Clubs; Ace, Hearts; Four, Hearts; Jack, Diamonds; Two, Spades; Six, Diamonds; Six, Clubs; Six, Diamonds; Queen, Hearts; King, Clubs; Nine, Clubs; King, Spades; Seven, Clubs; Three, Clubs; Queen, Clubs; Six, Clubs; Eight, Clubs; Six, Diamonds; Queen, Hearts; Jack, Clubs; Ace, Spades; Nine, Spades; Two, Hearts; Three, Diamonds; Three, Diamonds; Seven, Hearts; Eight, Hearts; Six, Hearts; Nine, Clubs; Six, Spades; Ace, Spades; Five, Hearts; Six, Hearts; Two, Clubs; Nine, Spades; King, Clubs; Two, Clubs; King, Spades; Five, Clubs; Three, Hearts; Ace, Diamonds; Eight, Spades; Four, Hearts; Jack, Hearts; Five, Spades; Seven, Hearts; Eight, Spades; Jack, Clubs; Ace, Hearts; Three, Spades; King, Diamonds; Six, Hearts; Ace, Spades; Ace, Clubs; Two, Clubs; Seven, Clubs; Four, Spades; Seven, Diamonds; Eight, Spades; Jack, Hearts; Six, Spades; Seven, Diamonds; Ace, Clubs; Five, Hearts; Four, Spades; Queen, Hearts; Five, Clubs; Ace, Diamonds; King, Spades; Ten, Hearts; Two, Spades; Ten, Spades; Three, Hearts; Six, Hearts; Two, Clubs; King, Hearts; Two, Hearts; Ten, Diamonds; Three, Spades; King, Diamonds; Six, Hearts; Five, Clubs; Three, Spades; Three, Diamonds; Nine, Diamonds; Nine, Diamonds; Seven, Spades; Two, Hearts; Two, Clubs; Three, Clubs; King, Hearts; Six, Clubs; Queen, Diamonds; Eight, Spades; Three, Diamonds; Seven, Hearts; Eight, Spades; Jack, Spades; Nine, Spades; Eight, Clubs; Five, Diamonds; Jack, Spades; Five, Clubs; Six, Diamonds; Four, Spades; Five, Spades; Queen, Spades; Four, Diamonds; Four, Diamonds; Eight, Clubs; King, Diamonds; Seven, Spades; Three, Clubs; Four, Hearts; Two, Hearts; Queen, Hearts; Five, Hearts; Ace, Clubs; Four, Hearts; Ace, Clubs; Ace, Diamonds; Queen, Clubs; Eight, Spades; Three, Hearts; King, Clubs; Six, Clubs; Six, Spades; Eight, Diamonds; Seven, Hearts; King, Clubs; Ace, Spades; Seven, Clubs; Ace, Spades; Eight, Hearts; Five, Clubs; Seven, Hearts; Five, Diamonds; Nine, Hearts; Two, Hearts; Ten, Spades; Two, Hearts; Seven, Spades; Two, Hearts; Nine, Clubs; Ten, Spades); many(v, "cards!(rank, suit; ..)", &L, "Jd Ad 8s Ts 3h Kc Ah 4h Jd 2s 6d 6c 6d Qh Kc 9c Ks 7c 3c Qc 6c 8c 6d Qh Jc As 9s 2h 3d 3d 7h 8h 6h 9c 6s As 5h 6h 2c 9s Kc 2c Ks 5c 3h Ad 8s 4h Jh 5s 7h 8s Jc Ah 3s Kd 6h As Ac 2c 7c 4s 7d 8s Jh 6s 7d Ac 5h 4s Qh 5c Ad Ks Th 2s Ts 3h 6h 2c Kh 2h Td 3s Kd 6h 5c 3s 3d 9d 9d 7s 2h 2c 3c Kh 6c Qd 8s 3d 7h 8s Js 9s 8c 5d Js 5c 6d 4s 5s Qs 4d 4d 8c Kd 7s 3c 4h 2h Qh 5h Ac 4h Ac Ad Qc 8s 3h Kc 6c 6s 8d 7h Kc As 7c As 8h 5c 7h 5d 9h 2h Ts 2h 7s 2h 9c Ts"); }
    { const L: [poker::Card; 150] = poker::cards![Jack of Diamonds, Ace of Diamonds, Eight of Spades, Ten of Spades, Three of Hearts, King of Clubs, Ace of Hearts, Four of Hearts, Jack of Diamonds, Two of Spades, Six of Diamonds, Six of Clubs, Six of Diamonds, Queen of Hearts, King of Clubs, Nine of Clubs, King of Spades, Seven of Clubs, Three of Clubs, Queen of Clubs, Six of Clubs, Eight of Clubs, Six of Diamonds, Queen of Hearts, Jack of Clubs, Ace of Spades, Nine of Spades, Two of Hearts, Three of Diamonds, Three of Diamonds, Seven of Hearts, Eight of Hearts, Six of Hearts, Nine of Clubs, Six of Spades, Ace of Spades, Five of Hearts, Six of Hearts, Two of Clubs, Nine of Spades, King of Clubs, Two of Clubs, King of Spades, Five of Clubs, Three of Hearts, Ace of Diamonds, Eight of Spades, Four of Hearts, Jack of Hearts, Five of Spades, Seven of Hearts, Eight of Spades, Jack of Clubs, Ace of Hearts, Three of Spades, King of Diamonds, Six of Hearts, Ace of Spades, Ace of Clubs, Two of Clubs, Seven of Clubs, Four of Spades, Seven of Diamonds, Eight of Spades, Jack of Hearts, Six of Spades, Seven of Diamonds, Ace of Clubs, Five of Hearts, Four of Spades, Queen of Hearts, Five of Clubs, Ace of Diamonds, King of Spades, Ten of Hearts, Two of Spades, Ten of Spades, Three of Hearts, Six of Hearts, Two of Clubs, King of Hearts, Two of Hearts, Ten of Diamonds, Three of Spades, King of Diamonds, Six of Hearts, Five of Clubs, Three of Spades, Three of Diamonds, Nine of Diamonds, Nine of Diamonds, Seven of Spades, Two of Hearts, Two of Clubs, Three of Clubs, King of Hearts, Six of Clubs, Queen of Diamonds, Eight of Spades, Three of Diamonds, Seven of Hearts, Eight of Spades, Jack of Spades, Nine of Spades, Eight of Clubs, Five of Diamonds, Jack of Spades, Five of Clubs, Six of Diamonds, Four of Spades, Five of Spades, Queen of Spades, Four of Diamonds, Four of Diamonds, Eight of Clubs, King of Diamonds, Seven of Spades, Three of Clubs, Four of Hearts, Two of Hearts, Queen of Hearts, Five of Hearts, Ace of Clubs, Four of Hearts, Ace of Clubs, Ace of Diamonds, Queen of Clubs, Eight of Spades, Three of Hearts, King of Clubs, Six of Clubs, Six of Spades, Eight of Diamonds, Seven of Hearts, King of Clubs, Ace of Spades, Seven of Clubs, Ace of Spades, Eight of Hearts, Five of Clubs, Seven of Hearts, Five of Diamonds, Nine of Hearts, Two of Hearts, Ten of Spades, Two of Hearts, Seven of Spades, Two of Hearts, Nine of Clubs, Ten of Spades]; many(v, "cards!(rank of suit, ..)", &L, "Jd Ad 8s Ts 3h Kc Ah 4h Jd 2s 6d 6c 6d Qh Kc 9c Ks 7c 3c Qc 6c 8c 6d Qh Jc As 9s 2h 3d 3d 7h 8h 6h 9c 6s As 5h 6h 2c 9s Kc 2c Ks 5c 3h Ad 8s 4h Jh 5s 7h 8s Jc Ah 3s Kd 6h As Ac 2c 7c 4s 7d 8s Jh 6s 7d Ac 5h 4s Qh 5c Ad Ks Th 2s Ts 3h 6h 2c Kh 2h Td 3s Kd 6h 5c 3s 3d 9d 9d 7s 2h 2c 3c Kh 6c Qd 8s 3d 7h 8s Js 9s 8c 5d Js 5c 6d 4s 5s Qs 4d 4d 8c Kd 7s 3c 4h 2h Qh 5h Ac 4h Ac Ad Qc 8s 3h Kc 6c 6s 8d 7h Kc As 7c As 8h 5c 7h 5d 9h 2h Ts 2h 7s 2h 9c Ts"); }
    parsed(v, "cards!(texts)", poker::cards!("Jd", "Ad", "8s", "Ts", "3h", "Kc", "Ah", "4h", "Jd", "2s", "6d", "6c", "6d", "Qh", "Kc", "9c", "Ks", "7c", "3c", "Qc", "6c", "8c", "6d", "Qh", "Jc", "As", "9s", "2h", "3d", "3d", "7h", "8h", "6h", "9c", "6s", "As", "5h", "6h", "2c", "9s", "Kc", "2c", "Ks", "5c", "3h", "Ad", "8s", "4h", "Jh", "5s", "7h", "8s", "Jc", "Ah", "3s", "Kd", "6h", "As", "Ac", "2c", "7c", "4s", "7d", "8s", "Jh", "6s", "7d", "Ac", "5h", "4s", "Qh", "5c", "Ad", "Ks", "Th", "2s", "Ts", "3h", "6h", "2c", "Kh", "2h", "Td", "3s", "Kd", "6h", "5c", "3s", "3d", "9d", "9d", "7s", "2h", "2c", "3c", "Kh", "6c", "Qd", "8s", "3d", "7h", "8s", "Js", "9s", "8c", "5d", "Js", "5c", "6d", "4s", "5s", "Qs", "4d", "4d", "8c", "Kd", "7s", "3c", "4h", "2h", "Qh", "5h", "Ac", "4h", "Ac", "Ad", "Qc", "8s", "3h", "Kc", "6c", "6s", "8d", "7h", "Kc", "As", "7c", "As", "8h", "5c", "7h", "5d", "9h", "2h", "Ts", "2h", "7s", "2h", "9c", "Ts").collect(), "Jd Ad 8s Ts 3h Kc Ah 4h Jd 2s 6d 6c 6d Qh Kc 9c Ks 7c 3c Qc 6c 8c 6d Qh Jc As 9s 2h 3d 3d 7h 8h 6h 9c 6s As 5h 6h 2c 9s Kc 2c Ks 5c 3h Ad 8s 4h Jh 5s 7h 8s Jc Ah 3s Kd 6h As Ac 2c 7c 4s 7d 8s Jh 6s 7d Ac 5h 4s Qh 5c Ad Ks Th 2s Ts 3h 6h 2c Kh 2h Td 3s Kd 6h 5c 3s 3d 9d 9d 7s 2h 2c 3c Kh 6c Qd 8s 3d 7h 8s Js 9s 8c 5d Js 5c 6d 4s 5s Qs 4d 4d 8c Kd 7s 3c 4h 2h Qh 5h Ac 4h Ac Ad Qc 8s 3h Kc 6c 6s 8d 7h Kc As 7c As 8h 5c 7h 5d 9h 2h Ts 2h 7s 2h 9c Ts");
    parsed(v, "cards!(one line)", poker::cards!(" Jd \t Ad \t 8s \t Ts \t 3h \t Kc \t Ah \t 4h \t Jd \t 2s \t 6d \t 6c \t 6d \t Qh \t Kc \t 9c \t Ks \t 7c \t 3c \t Qc \t 6c \t 8c \t 6d \t Qh \t Jc \t As \t 9s \t 2h \t 3d \t 3d \t 7h \t 8h \t 6h \t 9c \t 6s \t As \t 5h \t 6h \t 2c \t 9s \t Kc \t 2c \t Ks \t 5c \t 3h \t Ad \t 8s \t 4h \t Jh \t 5s \t 7h \t 8s \t Jc \t Ah \t 3s \t Kd \t 6h \t As \t Ac \t 2c \t 7c \t 4s \t 7d \t 8s \t Jh \t 6s \t 7d \t Ac \t 5h \t 4s \t Qh \t 5c \t Ad \t Ks \t Th \t 2s \t Ts \t 3h \t 6h \t 2c \t Kh \t 2h \t Td \t 3s \t Kd \t 6h \t 5c \t 3s \t 3d \t 9d \t 9d \t 7s \t 2h \t 2c \t 3c \t Kh \t 6c \t Qd \t 8s \t 3d \t 7h \t 8s \t Js \t 9s \t 8c \t 5d \t Js \t 5c \t 6d \t 4s \t 5s \t Qs \t 4d \t 4d \t 8c \t Kd \t 7s \t 3c \t 4h \t 2h \t Qh \t 5h \t Ac \t 4h \t Ac \t Ad \t Qc \t 8s \t 3h \t Kc \t 6c \t 6s \t 8d \t 7h \t Kc \t As \t 7c \t As \t 8h \t 5c \t 7h \t 5d \t 9h \t 2h \t Ts \t 2h \t 7s \t 2h \t 9c \t Ts\n").collect(), "Jd Ad 8s Ts 3h Kc Ah 4h Jd 2s 6d 6c 6d Qh Kc 9c Ks 7c 3c Qc 6c 8c 6d Qh Jc As 9s 2h 3d 3d 7h 8h 6h 9c 6s As 5h 6h 2c 9s Kc 2c Ks 5c 3h Ad 8s 4h Jh 5s 7h 8s Jc Ah 3s Kd 6h As Ac 2c 7c 4s 7d 8s Jh 6s 7d Ac 5h 4s Qh 5c Ad Ks Th 2s Ts 3h 6h 2c Kh 2h Td 3s Kd 6h 5c 3s 3d 9d 9d 7s 2h 2c 3c Kh 6c Qd 8s 3d 7h 8s Js 9s 8c 5d Js 5c 6d 4s 5s Qs 4d 4d 8c Kd 7s 3c 4h 2h Qh 5h Ac 4h Ac Ad Qc 8s 3h Kc 6c 6s 8d 7h Kc As 7c As 8h 5c 7h 5d 9h 2h Ts 2h 7s 2h 9c Ts");
    { let s = String::from(" Jd \t Ad \t 8s \t Ts \t 3h \t Kc \t Ah \t 4h \t Jd \t 2s \t 6d \t 6c \t 6d \t Qh \t Kc \t 9c \t Ks \t 7c \t 3c \t Qc \t 6c \t 8c \t 6d \t Qh \t Jc \t As \t 9s \t 2h \t 3d \t 3d \t 7h \t 8h \t 6h \t 9c \t 6s \t As \t 5h \t 6h \t 2c \t 9s \t Kc \t 2c \t Ks \t 5c \t 3h \t Ad \t 8s \t 4h \t Jh \t 5s \t 7h \t 8s \t Jc \t Ah \t 3s \t Kd \t 6h \t As \t Ac \t 2c \t 7c \t 4s \t 7d \t 8s \t Jh \t 6s \t 7d \t Ac \t 5h \t 4s \t Qh \t 5c \t Ad \t Ks \t Th \t 2s \t Ts \t 3h \t 6h \t 2c \t Kh \t 2h \t Td \t 3s \t Kd \t 6h \t 5c \t 3s \t 3d \t 9d \t 9d \t 7s \t 2h \t 2c \t 3c \t Kh \t 6c \t Qd \t 8s \t 3d \t 7h \t 8s \t Js \t 9s \t 8c \t 5d \t Js \t 5c \t 6d \t 4s \t 5s \t Qs \t 4d \t 4d \t 8c \t Kd \t 7s \t 3c \t 4h \t 2h \t Qh \t 5h \t Ac \t 4h \t Ac \t Ad \t Qc \t 8s \t 3h \t Kc \t 6c \t 6s \t 8d \t 7h \t Kc \t As \t 7c \t As \t 8h \t 5c \t 7h \t 5d \t 9h \t 2h \t Ts \t 2h \t 7s \t 2h \t 9c \t Ts\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Jd Ad 8s Ts 3h Kc Ah 4h Jd 2s 6d 6c 6d Qh Kc 9c Ks 7c 3c Qc 6c 8c 6d Qh Jc As 9s 2h 3d 3d 7h 8h 6h 9c 6s As 5h 6h 2c 9s Kc 2c Ks 5c 3h Ad 8s 4h Jh 5s 7h 8s Jc Ah 3s Kd 6h As Ac 2c 7c 4s 7d 8s Jh 6s 7d Ac 5h 4s Qh 5c Ad Ks Th 2s Ts 3h 6h 2c Kh 2h Td 3s Kd 6h 5c 3s 3d 9d 9d 7s 2h 2c 3c Kh 6c Qd 8s 3d 7h 8s Js 9s 8c 5d Js 5c 6d 4s 5s Qs 4d 4d 8c Kd 7s 3c 4h 2h Qh 5h Ac 4h Ac Ad Qc 8s 3h Kc 6c 6s 8d 7h Kc As 7c As 8h 5c 7h 5d 9h 2h Ts 2h 7s 2h 9c Ts"); }
    { const L: [poker::Card; 416] = poker::cards!(Eight, Spades; Ten, Clubs; Eight, Spades; Jack, Hearts; Three, Hearts; Ten, Hearts; Four, Hearts; King, Clubs; Five, Diamonds; Ten, Spades; Five, Diamonds; Two, Hearts; Four, Diamonds; Two, Spades; Four, Spades; Six, Clubs; Five, Spades; Seven, Diamonds; Nine, Diamonds; Two, Spades; Nine, Diamonds; Four, Clubs; Five, Diamonds; Seven, Clubs; Nine, Spades; Eight, Spades; Queen, Clubs; Seven, Diamonds; King, Spades; Seven, Hearts; Five, Diamonds; Six, Spades; Eight, Spades; Queen, Hearts; Two, Clubs; Eight, Spades; Two, Clubs; Five, Hearts; Queen, Clubs; Queen, Hearts; Eight, Diamonds; Queen, Clubs; Four, Hearts; Two, Clubs; Five, Hearts; Jack, Spades; Jack, Spades; Queen, Spades; Four, Clubs; Two, Hearts; Jack, Hearts; Three, Spades; Ten, Clubs; Five, Clubs; Jack, Diamonds; Five, Diamonds; Eight, Hearts; Six, Hearts; Two, Clubs; Nine, Hearts; Two, Diamonds; Seven, Clubs; King, Diamonds; Six, Diamonds; Seven, Clubs; King, Clubs; Seven, Hearts; Ace, Hearts; Five, Diamonds; Five, Diamonds; Two, Spades; Ten, Hearts; Six, Spades; Four, Hearts; King, Hearts; Six, Clubs; Seven, Clubs; Seven, Spades; Three, Diamonds; Five, Diamonds; Three, Hearts; Nine, Diamonds; Two, Diamonds; Six, Diamonds; Queen, Clubs; Five, Diamonds; Six, Hearts; Eight, Hearts; Ten, Hearts; Four, Hearts; King, Spades; Six, Spades; Ten, Clubs; Two, Diamonds; Seven, Spades; Eight, Clubs; Two, Clubs; Five, Hearts; Seven, Spades; Three, Hearts; Queen, Spades; Seven, Clubs; Seven, Hearts; Seven, Diamonds; Eight, Diamonds; Ten, Clubs; Six, Diamonds; Five, Diamonds; Jack, Spades; Ace, Diamonds; Three, Diamonds; Five, Clubs; Jack, Diamonds; King, Spades; Jack, Spades; Queen, Hearts; Three, Hearts; Jack, Hearts; Four, Clubs; Eight, Diamonds; Ten, Diamonds; Four, Diamonds; King, Diamonds; Ten, Diamonds; Jack, Diamonds; Four, Clubs; Five, Clubs; Jack, Spades; Four, Spades; Ace, Diamonds; Five, Hearts; King, Clubs; King, Spades; Ace, Hearts; Jack, Spades; Nine, Hearts; Ten, Hearts; Five, Diamonds; Five, Hearts; Four, Hearts; Eight, Diamonds; Jack, Diamonds; Six, Spades; Two, Spades; Three, Spades; Five, Spades; Ace, Spades; Ace, Diamonds; King, Clubs; Ace, Spades; Queen, Hearts; Seven, Diamonds; Ten, Diamonds; Ace, Diamonds; Six, Spades; Five, Spades; Queen, Clubs; Ace, Diamonds; Queen, Diamonds; Two, Diamonds; Jack, Clubs; Three, Spades; Two, Clubs; Three, Hearts; Queen, Spades; Queen, Spades; Three, Spades; Four, Spades; Four, Hearts; Two, Spades; Eight, Clubs; Eight, Diamonds; Seven, Diamonds; Six, Diamonds; Five, Spades; Ten, Diamonds; Four, Spades; Four, Diamonds; Seven, Hearts; King, Clubs; Seven, Spades; Queen, Clubs; Jack, Diamonds; Eight, Hearts; Ace, Clubs; King, Diamonds; Jack, Hearts; Eight, Spades; Ten, Spades; Five, Diamonds; Ten, Spades; Six, Diamonds; Eight, Spades; King, Hearts; Four, Hearts; Seven, Spades; King, Hearts; Three, Spades; Eight, Spades; Eight, Clubs; Nine, Diamonds; Seven, Spades; Four, Hearts; Eight, Clubs; Five, Diamonds; Eight, Diamonds; Jack, Clubs; Ace, Diamonds; Eight, Diamonds; Jack, Clubs; Ace, Clubs; Ace, Spades; Queen, Hearts; Four, Diamonds; Five, Clubs; Eight, Diamonds; Ten, Diamonds; Three, Clubs; Ace, Clubs; Jack, Spades; Eight, Clubs; Ten, Spades; Eight, Spades; Three, Spades; Two, Clubs; Ten, Hearts; Jack, Diamonds; Five, Diamonds; Nine, Hearts; Queen, Spades; Seven, Clubs; Seven, Spades; Ace, Diamonds; Nine, Hearts; Three, Clubs; Jack, Spades; Ace, Hearts; Ten, Diamonds; King, Clubs; Four, Diamonds; Six, Spades; Three, Hearts; Three, Spades; Jack, Diamonds; Seven, Diamonds; Ace, Hearts; Seven, Hearts; Jack, Diamonds; Ten, Clubs; Six, Hearts; Jack, Spades; Two, Diamonds; Ace, Clubs; Five, Hearts; Eight, Diamonds; Three, Spades; Six, Hearts; Eight, Diamonds; Five, Diamonds; Queen, Diamonds; Ten, Spades; Seven, Clubs; Three, Clubs; Eight, Diamonds; Nine, Hearts; Five, Diamonds; Ten, Clubs; Seven, Diamonds; Six, Hearts; Seven, Diamonds; Ten, Hearts; Seven, Clubs; Nine, Clubs; Ten, Clubs; Three, Hearts; Five, Diamonds; Ace, Spades; Seven, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Three, Hearts; Jack, Diamonds; Queen, Diamonds; Nine, Clubs; Six, Diamonds; Ten, Hearts; Seven, Spades; Four, Spades; Queen, Spades; Seven, Diamonds; Queen, Spades; Jack, Diamonds; Queen, Hearts; Ace, Hearts; Three, Hearts; Ace, Clubs; Eight, Clubs; Seven, Hearts; Queen, Clubs; Jack, Diamonds; Nine, Diamonds; Four, Clubs; Four, Hearts; Queen, Diamonds; Three, Spades; Seven, Diamonds; Queen, Diamonds; Ten, Hearts; Eight, Hearts; Six, Spades; Jack, Diamonds; Five, Clubs; Two, Spades; Ace, Diamonds; Seven, Hearts; Six, Spades; Jack, Clubs; Ace, Spades; Six, Clubs; Four, Spades; Seven, Spades; Ten, Diamonds; Ace, Clubs; Six, Diamonds; Queen, Hearts; Six, Diamonds; Queen, Clubs; Ace, Diamonds; Four, Clubs; Eight, Diamonds; Eight, Diamonds; Eight, Clubs; Ace, Diamonds; Two, Clubs; Six, Hearts; King, Hearts; Jack, Spades; Six, Diamonds; Six, Spades; King, Diamonds; Nine, Clubs; Seven, Diamonds; Ace, Hearts; Nine, Diamonds; Six, Diamonds; Ten, Diamonds; Seven, Hearts; Seven, Clubs; Ace, Diamonds; Jack, Hearts; Six, Diamonds; Two, Diamonds; Ace, Clubs; Ace, Hearts; Nine, Hearts; Four, Spades; Nine, Diamonds; Ten, Spades; Seven, Spades; Eight, Spades; Five, Hearts; Two, Hearts; Three, Clubs; Seven, Hearts; Nine, Spades; Two, Hearts; Six, Hearts; Two, Spades; Queen, Diamonds; Nine, Diamonds; Ace, Spades; King, Spades; Nine, Diamonds; Queen, Hearts; Seven, Diamonds; Eight, Clubs; Five, Diamonds; Jack, Clubs; Six, Diamonds; Queen, Clubs; Eight, Hearts; Ace, Hearts; Seven, Clubs; Eight, Clubs; Six, Hearts; King, Hearts; Seven, Hearts; Six, Hearts; Five, Hearts; Three, Clubs; Five, Clubs; Seven, Spades; Six, Diamonds; Four, Diamonds; Three, Spades; Ten, Clubs; Two, Clubs; Ace, Clubs; Eight, Spades; Six, Spades; King, Spades; Ace, Clubs; Nine, Diamonds; Seven, Diamonds; Seven, Diamonds; Five, Clubs; Five, Clubs; Ace, Diamonds; Eight, Spades; King, Hearts; Four, Spades; Eight, Clubs; Six, Diamonds; King, Hearts; Three, Hearts;); many(v, "cards!(rank, suit; ..)", &L, "8s Tc 8s Jh 3h Th 4h Kc 5d Ts 5d 2h 4d 2s 4s 6c 5s 7d 9d 2s 9d 4c 5d 7c 9s 8s Qc 7d Ks 7h 5d 6s 8s Qh 2c 8s 2c 5h Qc Qh 8d Qc 4h 2c 5h Js Js Qs 4c 2h Jh 3s Tc 5c Jd 5d 8h 6h 2c 9h 2d 7c Kd 6d 7c Kc 7h Ah 5d 5d 2s Th 6s 4h Kh 6c 7c 7s 3d 5d 3h 9d 2d 6d Qc 5d 6h 8h Th 4h Ks 6s Tc 2d 7s 8c 2c 5h 7s 3h Qs 7c 7h 7d 8d Tc 6d 5d Js Ad 3d 5c Jd Ks Js Qh 3h Jh 4c 8d Td 4d Kd Td Jd 4c 5c Js 4s Ad 5h Kc Ks Ah Js 9h Th 5d 5h 4h 8d Jd 6s 2s 3s 5s As Ad Kc As Qh 7d Td Ad 6s 5s Qc Ad Qd 2d Jc 3s 2c 3h Qs Qs 3s 4s 4h 2s 8c 8d 7d 6d 5s Td 4s 4d 7h Kc 7s Qc Jd 8h Ac Kd Jh 8s Ts 5d Ts 6d 8s Kh 4h 7s Kh 3s 8s 8c 9d 7s 4h 8c 5d 8d Jc Ad 8d Jc Ac As Qh 4d 5c 8d Td 3c Ac Js 8c Ts 8s 3s 2c Th Jd 5d 9h Qs 7c 7s Ad 9h 3c Js Ah Td Kc 4d 6s 3h 3s Jd 7d Ah 7h Jd Tc 6h Js 2d Ac 5h 8d 3s 6h 8d 5d Qd Ts 7c 3c 8d 9h 5d Tc 7d 6h 7d Th 7c 9c Tc 3h 5d As 7h Ks 2c 5d 3h Jd Qd 9c 6d Th 7s 4s Qs 7d Qs Jd Qh Ah 3h Ac 8c 7h Qc Jd 9d 4c 4h Qd 3s 7d Qd Th 8h 6s Jd 5c 2s Ad 7h 6s Jc As 6c 4s 7s Td Ac 6d Qh 6d Qc Ad 4c 8d 8d 8c Ad 2c 6h Kh Js 6d 6s Kd 9c 7d Ah 9d 6d Td 7h 7c Ad Jh 6d 2d Ac Ah 9h 4s 9d Ts 7s 8s 5h 2h 3c 7h 9s 2h 6h 2s Qd 9d As Ks 9d Qh 7d 8c 5d Jc 6d Qc 8h Ah 7c 8c 6h Kh 7h 6h 5h 3c 5c 7s 6d 4d 3s Tc 2c Ac 8s 6s Ks Ac 9d 7d 7d 5c 5c Ad 8s Kh 4s 8c 6d Kh 3h"); }
    { const L: [poker::Card; 416] = poker::cards![Eight of Spades, Ten of Clubs, Eight of Spades, Jack of Hearts, Three of Hearts, Ten of Hearts, Four of Hearts, King of Clubs, Five of Diamonds, Ten of Spades, Five of Diamonds, Two of Hearts, Four of Diamonds, Two of Spades, Four of Spades, Six of Clubs, Five of Spades, Seven of Diamonds, Nine of Diamonds, Two of Spades, Nine of Diamonds, Four of Clubs, Five of Diamonds, Seven of Clubs, Nine of Spades, Eight of Spades, Queen of Clubs, Seven of Diamonds, King of Spades, Seven of Hearts, Five of Diamonds, Six of Spades, Eight of Spades, Queen of Hearts, Two of Clubs, Eight of Spades, Two of Clubs, Five of Hearts, Queen of Clubs, Queen of Hearts, Eight of Diamonds, Queen of Clubs, Four of Hearts, Two of Clubs, Five of Hearts, Jack of Spades, Jack of Spades, Queen of Spades, Four of Clubs, Two of Hearts, Jack of Hearts, Three of Spades, Ten of Clubs, Five of Clubs, Jack of Diamonds, Five of Diamonds, Eight of Hearts, Six of Hearts, Two of Clubs, Nine of Hearts, Two of Diamonds, Seven of Clubs, King of Diamonds, Six of Diamonds, Seven of Clubs, King of Clubs, Seven of Hearts, Ace of Hearts, Five of Diamonds, Five of Diamonds, Two of Spades, Ten of Hearts, Six of Spades, Four of Hearts, King of Hearts, Six of Clubs, Seven of Clubs, Seven of Spades, Three of Diamonds, Five of Diamonds, Three of Hearts, Nine of Diamonds, Two of Diamonds, Six of Diamonds, Queen of Clubs, Five of Diamonds, Six of Hearts, Eight of Hearts, Ten of Hearts, Four of Hearts, King of Spades, Six of Spades, Ten of Clubs, Two of Diamonds, Seven of Spades, Eight of Clubs, Two of Clubs, Five of Hearts, Seven of Spades, Three of Hearts, Queen of Spades, Seven of Clubs, Seven of Hearts, Seven of Diamonds, Eight of Diamonds, Ten of Clubs, Six of Diamonds, Five of Diamonds, Jack of Spades, Ace of Diamonds, Three of Diamonds, Five of Clubs, Jack of Diamonds, King of Spades, Jack of Spades, Queen of Hearts, Three of Hearts, Jack of Hearts, Four of Clubs, Eight of Diamonds, Ten of Diamonds, Four of Diamonds, King of Diamonds, Ten of Diamonds, Jack of Diamonds, Four of Clubs, Five of Clubs, Jack of Spades, Four of Spades, Ace of Diamonds, Five of Hearts, King of Clubs, King of Spades, Ace of Hearts, Jack of Spades, Nine of Hearts, Ten of Hearts, Five of Diamonds, Five of Hearts, Four of Hearts, Eight of Diamonds, Jack of Diamonds, Six of Spades, Two of Spades, Three of Spades, Five of Spades, Ace of Spades, Ace of Diamonds, King of Clubs, Ace of Spades, Queen of Hearts, Seven of Diamonds, Ten of Diamonds, Ace of Diamonds, Six of Spades, Five of Spades, Queen of Clubs, Ace of Diamonds, Queen of Diamonds, Two of Diamonds, Jack of Clubs, Three of Spades, Two of Clubs, Three of Hearts, Queen of Spades, Queen of Spades, Three of Spades, Four of Spades, Four of Hearts, Two of Spades, Eight of Clubs, Eight of Diamonds, Seven of Diamonds, Six of Diamonds, Five of Spades, Ten of Diamonds, Four of Spades, Four of Diamonds, Seven of Hearts, King of Clubs, Seven of Spades, Queen of Clubs, Jack of Diamonds, Eight of Hearts, Ace of Clubs, King of Diamonds, Jack of Hearts, Eight of Spades, Ten of Spades, Five of Diamonds, Ten of Spades, Six of Diamonds, Eight of Spades, King of Hearts, Four of Hearts, Seven of Spades, King of Hearts, Three of Spades, Eight of Spades, Eight of Clubs, Nine of Diamonds, Seven of Spades, Four of Hearts, Eight of Clubs, Five of Diamonds, Eight of Diamonds, Jack of Clubs, Ace of Diamonds, Eight of Diamonds, Jack of Clubs, Ace of Clubs, Ace of Spades, Queen of Hearts, Four of Diamonds, Five of Clubs, Eight of Diamonds, Ten of Diamonds, Three of Clubs, Ace of Clubs, Jack of Spades, Eight of Clubs, Ten of Spades, Eight of Spades, Three of Spades, Two of Clubs, Ten of Hearts, Jack of Diamonds, Five of Diamonds, Nine of Hearts, Queen of Spades, Seven of Clubs, Seven of Spades, Ace of Diamonds, Nine of Hearts, Three of Clubs, Jack of Spades, Ace of Hearts, Ten of Diamonds, King of Clubs, Four of Diamonds, Six of Spades, Three of Hearts, Three of Spades, Jack of Diamonds, Seven of Diamonds, Ace of Hearts, Seven of Hearts, Jack of Diamonds, Ten of Clubs, Six of Hearts, Jack of Spades, Two of Diamonds, Ace of Clubs, Five of Hearts, Eight of Diamonds, Three of Spades, Six of Hearts, Eight of Diamonds, Five of Diamonds, Queen of Diamonds, Ten of Spades, Seven of Clubs, Three of Clubs, Eight of Diamonds, Nine of Hearts, Five of Diamonds, Ten of Clubs, Seven of Diamonds, Six of Hearts, Seven of Diamonds, Ten of Hearts, Seven of Clubs, Nine of Clubs, Ten of Clubs, Three of Hearts, Five of Diamonds, Ace of Spades, Seven of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Three of Hearts, Jack of Diamonds, Queen of Diamonds, Nine of Clubs, Six of Diamonds, Ten of Hearts, Seven of Spades, Four of Spades, Queen of Spades, Seven of Diamonds, Queen of Spades, Jack of Diamonds, Queen of Hearts, Ace of Hearts, Three of Hearts, Ace of Clubs, Eight of Clubs, Seven of Hearts, Queen of Clubs, Jack of Diamonds, Nine of Diamonds, Four of Clubs, Four of Hearts, Queen of Diamonds, Three of Spades, Seven of Diamonds, Queen of Diamonds, Ten of Hearts, Eight of Hearts, Six of Spades, Jack of Diamonds, Five of Clubs, Two of Spades, Ace of Diamonds, Seven of Hearts, Six of Spades, Jack of Clubs, Ace of Spades, Six of Clubs, Four of Spades, Seven of Spades, Ten of Diamonds, Ace of Clubs, Six of Diamonds, Queen of Hearts, Six of Diamonds, Queen of Clubs, Ace of Diamonds, Four of Clubs, Eight of Diamonds, Eight of Diamonds, Eight of Clubs, Ace of Diamonds, Two of Clubs, Six of Hearts, King of Hearts, Jack of Spades, Six of Diamonds, Six of Spades, King of Diamonds, Nine of Clubs, Seven of Diamonds, Ace of Hearts, Nine of Diamonds, Six of Diamonds, Ten of Diamonds, Seven of Hearts, Seven of Clubs, Ace of Diamonds, Jack of Hearts, Six of Diamonds, Two of Diamonds, Ace of Clubs, Ace of Hearts, Nine of Hearts, Four of Spades, Nine of Diamonds, Ten of Spades, Seven of Spades, Eight of Spades, Five of Hearts, Two of Hearts, Three of Clubs, Seven of Hearts, Nine of Spades, Two of Hearts, Six of Hearts, Two of Spades, Queen of Diamonds, Nine of Diamonds, Ace of Spades, King of Spades, Nine of Diamonds, Queen of Hearts, Seven of Diamonds, Eight of Clubs, Five of Diamonds, Jack of Clubs, Six of Diamonds, Queen of Clubs, Eight of Hearts, Ace of Hearts, Seven of Clubs, Eight of Clubs, Six of Hearts, King of Hearts, Seven of Hearts, Six of Hearts, Five of Hearts, Three of Clubs, Five of Clubs, Seven of Spades, Six of Diamonds, Four of Diamonds, Three of Spades, Ten of Clubs, Two of Clubs, Ace of Clubs, Eight of Spades, Six of Spades, King of Spades, Ace of Clubs, Nine of Diamonds, Seven of Diamonds, Seven of Diamonds, Five of Clubs, Five of Clubs, Ace of Diamonds, Eight of Spades, King of Hearts, Four of Spades, Eight of Clubs, Six of Diamonds, King of Hearts, Three of Hearts,]; many(v, "cards!(rank of suit, ..)", &L, "8s Tc 8s Jh 3h Th 4h Kc 5d Ts 5d 2h 4d 2s 4s 6c 5s 7d 9d 2s 9d 4c 5d 7c 9s 8s Qc 7d Ks 7h 5d 6s 8s Qh 2c 8s 2c 5h Qc Qh 8d Qc 4h 2c 5h Js Js Qs 4c 2h Jh 3s Tc 5c Jd 5d 8h 6h 2c 9h 2d 7c Kd 6d 7c Kc 7h Ah 5d 5d 2s Th 6s 4h Kh 6c 7c 7s 3d 5d 3h 9d 2d 6d Qc 5d 6h 8h Th 4h Ks 6s Tc 2d 7s 8c 2c 5h 7s 3h Qs 7c 7h 7d 8d Tc 6d 5d Js Ad 3d 5c Jd Ks Js Qh 3h Jh 4c 8d Td 4d Kd Td Jd 4c 5c Js 4s Ad 5h Kc Ks Ah Js 9h Th 5d 5h 4h 8d Jd 6s 2s 3s 5s As Ad Kc As Qh 7d Td Ad 6s 5s Qc Ad Qd 2d Jc 3s 2c 3h Qs Qs 3s 4s 4h 2s 8c 8d 7d 6d 5s Td 4s 4d 7h Kc 7s Qc Jd 8h Ac Kd Jh 8s Ts 5d Ts 6d 8s Kh 4h 7s Kh 3s 8s 8c 9d 7s 4h 8c 5d 8d Jc Ad 8d Jc Ac As Qh 4d 5c 8d Td 3c Ac Js 8c Ts 8s 3s 2c Th Jd 5d 9h Qs 7c 7s Ad 9h 3c Js Ah Td Kc 4d 6s 3h 3s Jd 7d Ah 7h Jd Tc 6h Js 2d Ac 5h 8d 3s 6h 8d 5d Qd Ts 7c 3c 8d 9h 5d Tc 7d 6h 7d Th 7c 9c Tc 3h 5d As 7h Ks 2c 5d 3h Jd Qd 9c 6d Th 7s 4s Qs 7d Qs Jd Qh Ah 3h Ac 8c 7h Qc Jd 9d 4c 4h Qd 3s 7d Qd Th 8h 6s Jd 5c 2s Ad 7h 6s Jc As 6c 4s 7s Td Ac 6d Qh 6d Qc Ad 4c 8d 8d 8c Ad 2c 6h Kh Js 6d 6s Kd 9c 7d Ah 9d 6d Td 7h 7c Ad Jh 6d 2d Ac Ah 9h 4s 9d Ts 7s 8s 5h 2h 3c 7h 9s 2h 6h 2s Qd 9d As Ks 9d Qh 7d 8c 5d Jc 6d Qc 8h Ah 7c 8c 6h Kh 7h 6h 5h 3c 5c 7s 6d 4d 3s Tc 2c Ac 8s 6s Ks Ac 9d 7d 7d 5c 5c Ad 8s Kh 4s 8c 6d Kh 3h"); }
    parsed(v, "cards!(texts)", poker::cards!("8s", "Tc", "8s", "Jh", "3h", "Th", "4h", "Kc", "5d", "Ts", "5d", "2h", "4d", "2s", "4s", "6c", "5s", "7d", "9d", "2s", "9d", "4c", "5d", "7c", "9s", "8s", "Qc", "7d", "Ks", "7h", "5d", "6s", "8s", "Qh", "2c", "8s", "2c", "5h", "Qc", "Qh", "8d", "Qc", "4h", "2c", "5h", "Js", "Js", "Qs", "4c", "2h", "Jh", "3s", "Tc", "5c", "Jd", "5d", "8h", "6h", "2c", "9h", "2d", "7c", "Kd", "6d", "7c", "Kc", "7h", "Ah", "5d", "5d", "2s", "Th", "6s", "4h", "Kh", "6c", "7c", "7s", "3d", "5d", "3h", "9d", "2d", "6d", "Qc", "5d", "6h", "8h", "Th", "4h", "Ks", "6s", "Tc", "2d", "7s", "8c", "2c", "5h", "7s", "3h", "Qs", "7c", "7h", "7d", "8d", "Tc", "6d", "5d", "Js", "Ad", "3d", "5c", "Jd", "Ks", "Js", "Qh", "3h", "Jh", "4c", "8d", "Td", "4d", "Kd", "Td", "Jd", "4c", "5c", "Js", "4s", "Ad", "5h", "Kc", "Ks", "Ah", "Js", "9h", "Th", "5d", "5h", "4h", "8d", "Jd", "6s", "2s", "3s", "5s", "As", "Ad", "Kc", "As", "Qh", "7d", "Td", "Ad", "6s", "5s", "Qc", "Ad", "Qd", "2d", "Jc", "3s", "2c", "3h", "Qs", "Qs", "3s", "4s", "4h", "2s", "8c", "8d", "7d", "6d", "5s", "Td", "4s", "4d", "7h", "Kc", "7s", "Qc", "Jd", "8h", "Ac", "Kd", "Jh", "8s", "Ts", "5d", "Ts", "6d", "8s", "Kh", "4h", "7s", "Kh", "3s", "8s", "8c", "9d", "7s", "4h", "8c", "5d", "8d", "Jc", "Ad", "8d", "Jc", "Ac", "As", "Qh", "4d", "5c", "8d", "Td", "3c", "Ac", "Js", "8c", "Ts", "8s", "3s", "2c", "Th", "Jd", "5d", "9h", "Qs", "7c", "7s", "Ad", "9h", "3c", "Js", "Ah", "Td", "Kc", "4d", "6s", "3h", "3s", "Jd", "7d", "Ah", "7h", "Jd", "Tc", "6h", "Js", "2d", "Ac", "5h", "8d", "3s", "6h", "8d", "5d", "Qd", "Ts", "7c", "3c", "8d", "9h", "5d", "Tc", "7d", "6h", "7d", "Th", "7c", "9c", "Tc", "3h", "5d", "As", "7h", "Ks", "2c", "5d", "3h", "Jd", "Qd", "9c", "6d", "Th", "7s", "4s", "Qs", "7d", "Qs", "Jd", "Qh", "Ah", "3h", "Ac", "8c", "7h", "Qc", "Jd", "9d", "4c", "4h", "Qd", "3s", "7d", "Qd", "Th", "8h", "6s", "Jd", "5c", "2s", "Ad", "7h", "6s", "Jc", "As", "6c", "4s", "7s", "Td", "Ac", "6d", "Qh", "6d", "Qc", "Ad", "4c", "8d", "8d", "8c", "Ad", "2c", "6h", "Kh", "Js", "6d", "6s", "Kd", "9c", "7d", "Ah", "9d", "6d", "Td", "7h", "7c", "Ad", "Jh", "6d", "2d", "Ac", "Ah", "9h", "4s", "9d", "Ts", "7s", "8s", "5h", "2h", "3c", "7h", "9s", "2h", "6h", "2s", "Qd", "9d", "As", "Ks", "9d", "Qh", "7d", "8c", "5d", "Jc", "6d", "Qc", "8h", "Ah", "7c", "8c", "6h", "Kh", "7h", "6h", "5h", "3c", "5c", "7s", "6d", "4d", "3s", "Tc", "2c", "Ac", "8s", "6s", "Ks", "Ac", "9d", "7d", "7d", "5c", "5c", "Ad", "8s", "Kh", "4s", "8c", "6d", "Kh", "3h",).collect(), "8s Tc 8s Jh 3h Th 4h Kc 5d Ts 5d 2h 4d 2s 4s 6c 5s 7d 9d 2s 9d 4c 5d 7c 9s 8s Qc 7d Ks 7h 5d 6s 8s Qh 2c 8s 2c 5h Qc Qh 8d Qc 4h 2c 5h Js Js Qs 4c 2h Jh 3s Tc 5c Jd 5d 8h 6h 2c 9h 2d 7c Kd 6d 7c Kc 7h Ah 5d 5d 2s Th 6s 4h Kh 6c 7c 7s 3d 5d 3h 9d 2d 6d Qc 5d 6h 8h Th 4h Ks 6s Tc 2d 7s 8c 2c 5h 7s 3h Qs 7c 7h 7d 8d Tc 6d 5d Js Ad 3d 5c Jd Ks Js Qh 3h Jh 4c 8d Td 4d Kd Td Jd 4c 5c Js 4s Ad 5h Kc Ks Ah Js 9h Th 5d 5h 4h 8d Jd 6s 2s 3s 5s As Ad Kc As Qh 7d Td Ad 6s 5s Qc Ad Qd 2d Jc 3s 2c 3h Qs Qs 3s 4s 4h 2s 8c 8d 7d 6d 5s Td 4s 4d 7h Kc 7s Qc Jd 8h Ac Kd Jh 8s Ts 5d Ts 6d 8s Kh 4h 7s Kh 3s 8s 8c 9d 7s 4h 8c 5d 8d Jc Ad 8d Jc Ac As Qh 4d 5c 8d Td 3c Ac Js 8c Ts 8s 3s 2c Th Jd 5d 9h Qs 7c 7s Ad 9h 3c Js Ah Td Kc 4d 6s 3h 3s Jd 7d Ah 7h Jd Tc 6h Js 2d Ac 5h 8d 3s 6h 8d 5d Qd Ts 7c 3c 8d 9h 5d Tc 7d 6h 7d Th 7c 9c Tc 3h 5d As 7h Ks 2c 5d 3h Jd Qd 9c 6d Th 7s 4s Qs 7d Qs Jd Qh Ah 3h Ac 8c 7h Qc Jd 9d 4c 4h Qd 3s 7d Qd Th 8h 6s Jd 5c 2s Ad 7h 6s Jc As 6c 4s 7s Td Ac 6d Qh 6d Qc Ad 4c 8d 8d 8c Ad 2c 6h Kh Js 6d 6s Kd 9c 7d Ah 9d 6d Td 7h 7c Ad Jh 6d 2d Ac Ah 9h 4s 9d Ts 7s 8s 5h 2h 3c 7h 9s 2h 6h 2s Qd 9d As Ks 9d Qh 7d 8c 5d Jc 6d Qc 8h Ah 7c 8c 6h Kh 7h 6h 5h 3c 5c 7s 6d 4d 3s Tc 2c Ac 8s 6s Ks Ac 9d 7d 7d 5c 5c Ad 8s Kh 4s 8c 6d Kh 3h");
    parsed(v, "cards!(one line)", poker::cards!("8s Tc 8s Jh 3h Th 4h Kc 5d Ts 5d 2h 4d 2s 4s 6c 5s 7d 9d 2s 9d 4c 5d 7c 9s 8s Qc 7d Ks 7h 5d 6s 8s Qh 2c 8s 2c 5h Qc Qh 8d Qc 4h 2c 5h Js Js Qs 4c 2h Jh 3s Tc 5c Jd 5d 8h 6h 2c 9h 2d 7c Kd 6d 7c Kc 7h Ah 5d 5d 2s Th 6s 4h Kh 6c 7c 7s 3d 5d 3h 9d 2d 6d Qc 5d 6h 8h Th 4h Ks 6s Tc 2d 7s 8c 2c 5h 7s 3h Qs 7c 7h 7d 8d Tc 6d 5d Js Ad 3d 5c Jd Ks Js Qh 3h Jh 4c 8d Td 4d Kd Td Jd 4c 5c Js 4s Ad 5h Kc Ks Ah Js 9h Th 5d 5h 4h 8d Jd 6s 2s 3s 5s As Ad Kc As Qh 7d Td Ad 6s 5s Qc Ad Qd 2d Jc 3s 2c 3h Qs Qs 3s 4s 4h 2s 8c 8d 7d 6d 5s Td 4s 4d 7h Kc 7s Qc Jd 8h Ac Kd Jh 8s Ts 5d Ts 6d 8s Kh 4h 7s Kh 3s 8s 8c 9d 7s 4h 8c 5d 8d Jc Ad 8d Jc Ac As Qh 4d 5c 8d Td 3c Ac Js 8c Ts 8s 3s 2c Th Jd 5d 9h Qs 7c 7s Ad 9h 3c Js Ah Td Kc 4d 6s 3h 3s Jd 7d Ah 7h Jd Tc 6h Js 2d Ac 5h 8d 3s 6h 8d 5d Qd Ts 7c 3c 8d 9h 5d Tc 7d 6h 7d Th 7c 9c Tc 3h 5d As 7h Ks 2c 5d 3h Jd Qd 9c 6d Th 7s 4s Qs 7d Qs Jd Qh Ah 3h Ac 8c 7h Qc Jd 9d 4c 4h Qd 3s 7d Qd Th 8h 6s Jd 5c 2s Ad 7h 6s Jc As 6c 4s 7s Td Ac 6d Qh 6d Qc Ad 4c 8d 8d 8c Ad 2c 6h Kh Js 6d 6s Kd 9c 7d Ah 9d 6d Td 7h 7c Ad Jh 6d 2d Ac Ah 9h 4s 9d Ts 7s 8s 5h 2h 3c 7h 9s 2h 6h 2s Qd 9d As Ks 9d Qh 7d 8c 5d Jc 6d Qc 8h Ah 7c 8c 6h Kh 7h 6h 5h 3c 5c 7s 6d 4d 3s Tc 2c Ac 8s 6s Ks Ac 9d 7d 7d 5c 5c Ad 8s Kh 4s 8c 6d Kh 3h").collect(), "8s Tc 8s Jh 3h Th 4h Kc 5d Ts 5d 2h 4d 2s 4s 6c 5s 7d 9d 2s 9d 4c 5d 7c 9s 8s Qc 7d Ks 7h 5d 6s 8s Qh 2c 8s 2c 5h Qc Qh 8d Qc 4h 2c 5h Js Js Qs 4c 2h Jh 3s Tc 5c Jd 5d 8h 6h 2c 9h 2d 7c Kd 6d 7c Kc 7h Ah 5d 5d 2s Th 6s 4h Kh 6c 7c 7s 3d 5d 3h 9d 2d 6d Qc 5d 6h 8h Th 4h Ks 6s Tc 2d 7s 8c 2c 5h 7s 3h Qs 7c 7h 7d 8d Tc 6d 5d Js Ad 3d 5c Jd Ks Js Qh 3h Jh 4c 8d Td 4d Kd Td Jd 4c 5c Js 4s Ad 5h Kc Ks Ah Js 9h Th 5d 5h 4h 8d Jd 6s 2s 3s 5s As Ad Kc As Qh 7d Td Ad 6s 5s Qc Ad Qd 2d Jc 3s 2c 3h Qs Qs 3s 4s 4h 2s 8c 8d 7d 6d 5s Td 4s 4d 7h Kc 7s Qc Jd 8h Ac Kd Jh 8s Ts 5d Ts 6d 8s Kh 4h 7s Kh 3s 8s 8c 9d 7s 4h 8c 5d 8d Jc Ad 8d Jc Ac As Qh 4d 5c 8d Td 3c Ac Js 8c Ts 8s 3s 2c Th Jd 5d 9h Qs 7c 7s Ad 9h 3c Js Ah Td Kc 4d 6s 3h 3s Jd 7d Ah 7h Jd Tc 6h Js 2d Ac 5h 8d 3s 6h 8d 5d Qd Ts 7c 3c 8d 9h 5d Tc 7d 6h 7d Th 7c 9c Tc 3h 5d As 7h Ks 2c 5d 3h Jd Qd 9c 6d Th 7s 4s Qs 7d Qs Jd Qh Ah 3h Ac 8c 7h Qc Jd 9d 4c 4h Qd 3s 7d Qd Th 8h 6s Jd 5c 2s Ad 7h 6s Jc As 6c 4s 7s Td Ac 6d Qh 6d Qc Ad 4c 8d 8d 8c Ad 2c 6h Kh Js 6d 6s Kd 9c 7d Ah 9d 6d Td 7h 7c Ad Jh 6d 2d Ac Ah 9h 4s 9d Ts 7s 8s 5h 2h 3c 7h 9s 2h 6h 2s Qd 9d As Ks 9d Qh 7d 8c 5d Jc 6d Qc 8h Ah 7c 8c 6h Kh 7h 6h 5h 3c 5c 7s 6d 4d 3s Tc 2c Ac 8s 6s Ks Ac 9d 7d 7d 5c 5c Ad 8s Kh 4s 8c 6d Kh 3h");
    { let s = String::from("8s Tc 8s Jh 3h Th 4h Kc 5d Ts 5d 2h 4d 2s 4s 6c 5s 7d 9d 2s 9d 4c 5d 7c 9s 8s Qc 7d Ks 7h 5d 6s 8s Qh 2c 8s 2c 5h Qc Qh 8d Qc 4h 2c 5h Js Js Qs 4c 2h Jh 3s Tc 5c Jd 5d 8h 6h 2c 9h 2d 7c Kd 6d 7c Kc 7h Ah 5d 5d 2s Th 6s 4h Kh 6c 7c 7s 3d 5d 3h 9d 2d 6d Qc 5d 6h 8h Th 4h Ks 6s Tc 2d 7s 8c 2c 5h 7s 3h Qs 7c 7h 7d 8d Tc 6d 5d Js Ad 3d 5c Jd Ks Js Qh 3h Jh 4c 8d Td 4d Kd Td Jd 4c 5c Js 4s Ad 5h Kc Ks Ah Js 9h Th 5d 5h 4h 8d Jd 6s 2s 3s 5s As Ad Kc As Qh 7d Td Ad 6s 5s Qc Ad Qd 2d Jc 3s 2c 3h Qs Qs 3s 4s 4h 2s 8c 8d 7d 6d 5s Td 4s 4d 7h Kc 7s Qc Jd 8h Ac Kd Jh 8s Ts 5d Ts 6d 8s Kh 4h 7s Kh 3s 8s 8c 9d 7s 4h 8c 5d 8d Jc Ad 8d Jc Ac As Qh 4d 5c 8d Td 3c Ac Js 8c Ts 8s 3s 2c Th Jd 5d 9h Qs 7c 7s Ad 9h 3c Js Ah Td Kc 4d 6s 3h 3s Jd 7d Ah 7h Jd Tc 6h Js 2d Ac 5h 8d 3s 6h 8d 5d Qd Ts 7c 3c 8d 9h 5d Tc 7d 6h 7d Th 7c 9c Tc 3h 5d As 7h Ks 2c 5d 3h Jd Qd 9c 6d Th 7s 4s Qs 7d Qs Jd Qh Ah 3h Ac 8c 7h Qc Jd 9d 4c 4h Qd 3s 7d Qd Th 8h 6s Jd 5c 2s Ad 7h 6s Jc As 6c 4s 7s Td Ac 6d Qh 6d Qc Ad 4c 8d 8d 8c Ad 2c 6h Kh Js 6d 6s Kd 9c 7d Ah 9d 6d Td 7h 7c Ad Jh 6d 2d Ac Ah 9h 4s 9d Ts 7s 8s 5h 2h 3c 7h 9s 2h 6h 2s Qd 9d As Ks 9d Qh 7d 8c 5d Jc 6d Qc 8h Ah 7c 8c 6h Kh 7h 6h 5h 3c 5c 7s 6d 4d 3s Tc 2c Ac 8s 6s Ks Ac 9d 7d 7d 5c 5c Ad 8s Kh 4s 8c 6d Kh 3h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "8s Tc 8s Jh 3h Th 4h Kc 5d Ts 5d 2h 4d 2s 4s 6c 5s 7d 9d 2s 9d 4c 5d 7c 9s 8s Qc 7d Ks 7h 5d 6s 8s Qh 2c 8s 2c 5h Qc Qh 8d Qc 4h 2c 5h Js Js Qs 4c 2h Jh 3s Tc 5c Jd 5d 8h 6h 2c 9h 2d 7c Kd 6d 7c Kc 7h Ah 5d 5d 2s Th 6s 4h Kh 6c 7c 7s 3d 5d 3h 9d 2d 6d Qc 5d 6h 8h Th 4h Ks 6s Tc 2d 7s 8c 2c 5h 7s 3h Qs 7c 7h 7d 8d Tc 6d 5d Js Ad 3d 5c Jd Ks Js Qh 3h Jh 4c 8d Td 4d Kd Td Jd 4c 5c Js 4s Ad 5h Kc Ks Ah Js 9h Th 5d 5h 4h 8d Jd 6s 2s 3s 5s As Ad Kc As Qh 7d Td Ad 6s 5s Qc Ad Qd 2d Jc 3s 2c 3h Qs Qs 3s 4s 4h 2s 8c 8d 7d 6d 5s Td 4s 4d 7h Kc 7s Qc Jd 8h Ac Kd Jh 8s Ts 5d Ts 6d 8s Kh 4h 7s Kh 3s 8s 8c 9d 7s 4h 8c 5d 8d Jc Ad 8d Jc Ac As Qh 4d 5c 8d Td 3c Ac Js 8c Ts 8s 3s 2c Th Jd 5d 9h Qs 7c 7s Ad 9h 3c Js Ah Td Kc 4d 6s 3h 3s Jd 7d Ah 7h Jd Tc 6h Js 2d Ac 5h 8d 3s 6h 8d 5d Qd Ts 7c 3c 8d 9h 5d Tc 7d 6h 7d Th 7c 9c Tc 3h 5d As 7h Ks 2c 5d 3h Jd Qd 9c 6d Th 7s 4s Qs 7d Qs Jd Qh Ah 3h Ac 8c 7h Qc Jd 9d 4c 4h Qd 3s 7d Qd Th 8h 6s Jd 5c 2s Ad 7h 6s Jc As 6c 4s 7s Td Ac 6d Qh 6d Qc Ad 4c 8d 8d 8c Ad 2c 6h Kh Js 6d 6s Kd 9c 7d Ah 9d 6d Td 7h 7c Ad Jh 6d 2d Ac Ah 9h 4s 9d Ts 7s 8s 5h 2h 3c 7h 9s 2h 6h 2s Qd 9d As Ks 9d Qh 7d 8c 5d Jc 6d Qc 8h Ah 7c 8c 6h Kh 7h 6h 5h 3c 5c 7s 6d 4d 3s Tc 2c Ac 8s 6s Ks Ac 9d 7d 7d 5c 5c Ad 8s Kh 4s 8c 6d Kh 3h"); }
    { const L: [poker::Card; 2] = poker::cards!(Two, Clubs; Six, Hearts); many(v, "cards!(rank, suit; ..)", &L, "2c 6h"); }
    { const L: [poker::Card; 2] = poker::cards![Two of Clubs, Six of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "2c 6h"); }
    parsed(v, "cards!(texts)", poker::cards!("2c", "6h").collect(), "2c 6h");
    parsed(v, "cards!(one line)", poker::cards!("2c 6h").collect(), "2c 6h");
    { let s = String::from("2c 6h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "2c 6h"); }
    { const L: [poker::Card; 2] = poker::cards!(Two, Hearts; Six, Spades;); many(v, "cards!(rank, suit; ..)", &L, "2h 6s"); }
    { const L: [poker::Card; 2] = poker::cards![Two of Hearts, Six of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "2h 6s"); }
    parsed(v, "cards!(texts)", poker::cards!("2h", "6s",).collect(), "2h 6s");
    parsed(v, "cards!(one line)", poker::cards!(" 2h\r\n6s\n").collect(), "2h 6s");
    { let s = String::from(" 2h\r\n6s\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "2h 6s"); }
    { const L: [poker::Card; 2] = poker::cards!(Two, Spades; Six, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "2s 6d"); }
    { const L: [poker::Card; 2] = poker::cards![Two of Spades, Six of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "2s 6d"); }
    parsed(v, "cards!(texts)", poker::cards!("2s", "6d").collect(), "2s 6d");
    parsed(v, "cards!(one line)", poker::cards!("2s 6d").collect(), "2s 6d");
    { let s = String::from("2s 6d"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "2s 6d"); }
    { const L: [poker::Card; 2] = poker::cards!(Two, Diamonds; Seven, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "2d 7c"); }
    { const L: [poker::Card; 2] = poker::cards![Two of Diamonds, Seven of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "2d 7c"); }
    parsed(v, "cards!(texts)", poker::cards!("2d", "7c",).collect(), "2d 7c");
    parsed(v, "cards!(one line)", poker::cards!("2d  7c").collect(), "2d 7c");
    { let s = String::from("2d  7c"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "2d 7c"); }
    { const L: [poker::Card; 2] = poker::cards!(Three, Clubs; Seven, Hearts); many(v, "cards!(rank, suit; ..)", &L, "3c 7h"); }
    { const L: [poker::Card; 2] = poker::cards![Three of Clubs, Seven of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "3c 7h"); }
    parsed(v, "cards!(texts)", poker::cards!("3c", "7h").collect(), "3c 7h");
    parsed(v, "cards!(one line)", poker::cards!(" 3c\t7h\n").collect(), "3c 7h");
    { let s = String::from(" 3c\t7h\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "3c 7h"); }
    { const L: [poker::Card; 2] = poker::cards!(Three, Hearts; Seven, Spades;); many(v, "cards!(rank, suit; ..)", &L, "3h 7s"); }
    { const L: [poker::Card; 2] = poker::cards![Three of Hearts, Seven of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "3h 7s"); }
    parsed(v, "cards!(texts)", poker::cards!("3h", "7s",).collect(), "3h 7s");
    parsed(v, "cards!(one line)", poker::cards!("3h\n7s").collect(), "3h 7s");
    { let s = String::from("3h\n7s"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "3h 7s"); }
}
fn lists_3(v: &mut Vec<Case>) {
    { const L: [poker::Card; 2] = poker::cards!(Three, Spades; Seven, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "3s 7d"); }
    { const L: [poker::Card; 2] = poker::cards![Three of Spades, Seven of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "3s 7d"); }
    parsed(v, "cards!(texts)", poker::cards!("3s", "7d").collect(), "3s 7d");
    parsed(v, "cards!(one line)", poker::cards!(" 3s 7d\n").collect(), "3s 7d");
    { let s = String::from(" 3s 7d\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "3s 7d"); }
    { const L: [poker::Card; 2] = poker::cards!(Three, Diamonds; Eight, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "3d 8c"); }
    { const L: [poker::Card; 2] = poker::cards![Three of Diamonds, Eight of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "3d 8c"); }
    parsed(v, "cards!(texts)", poker::cards!("3d", "8c",).collect(), "3d 8c");
    parsed(v, "cards!(one line)", poker::cards!("3d  8c").collect(), "3d 8c");
    { let s = String::from("3d  8c"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "3d 8c"); }
    { const L: [poker::Card; 2] = poker::cards!(Four, Clubs; Eight, Hearts); many(v, "cards!(rank, suit; ..)", &L, "4c 8h"); }
    { const L: [poker::Card; 2] = poker::cards![Four of Clubs, Eight of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "4c 8h"); }
    parsed(v, "cards!(texts)", poker::cards!("4c", "8h").collect(), "4c 8h");
    parsed(v, "cards!(one line)", poker::cards!("4c\t8h").collect(), "4c 8h");
    { let s = String::from("4c\t8h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "4c 8h"); }
    { const L: [poker::Card; 2] = poker::cards!(Four, Hearts; Eight, Spades;); many(v, "cards!(rank, suit; ..)", &L, "4h 8s"); }
    { const L: [poker::Card; 2] = poker::cards![Four of Hearts, Eight of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "4h 8s"); }
    parsed(v, "cards!(texts)", poker::cards!("4h", "8s",).collect(), "4h 8s");
    parsed(v, "cards!(one line)", poker::cards!(" 4h\n8s\n").collect(), "4h 8s");
    { let s = String::from(" 4h\n8s\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "4h 8s"); }
    { const L: [poker::Card; 2] = poker::cards!(Four, Spades; Eight, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "4s 8d"); }
    { const L: [poker::Card; 2] = poker::cards![Four of Spades, Eight of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "4s 8d"); }
    parsed(v, "cards!(texts)", poker::cards!("4s", "8d").collect(), "4s 8d");
    parsed(v, "cards!(one line)", poker::cards!("4s \t 8d").collect(), "4s 8d");
    { let s = String::from("4s \t 8d"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "4s 8d"); }
    { const L: [poker::Card; 2] = poker::cards!(Four, Diamonds; Nine, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "4d 9c"); }
    { const L: [poker::Card; 2] = poker::cards![Four of Diamonds, Nine of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "4d 9c"); }
    parsed(v, "cards!(texts)", poker::cards!("4d", "9c",).collect(), "4d 9c");
    parsed(v, "cards!(one line)", poker::cards!("4d 9c").collect(), "4d 9c");
    { let s = String::from("4d 9c"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "4d 9c"); }
    { const L: [poker::Card; 2] = poker::cards!(Five, Clubs; Nine, Hearts); many(v, "cards!(rank, suit; ..)", &L, "5c 9h"); }
    { const L: [poker::Card; 2] = poker::cards![Five of Clubs, Nine of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "5c 9h"); }
    parsed(v, "cards!(texts)", poker::cards!("5c", "9h").collect(), "5c 9h");
    parsed(v, "cards!(one line)", poker::cards!(" 5c 9h\n").collect(), "5c 9h");
    { let s = String::from(" 5c 9h\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "5c 9h"); }
    { const L: [poker::Card; 2] = poker::cards!(Five, Hearts; Nine, Spades;); many(v, "cards!(rank, suit; ..)", &L, "5h 9s"); }
    { const L: [poker::Card; 2] = poker::cards![Five of Hearts, Nine of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "5h 9s"); }
    parsed(v, "cards!(texts)", poker::cards!("5h", "9s",).collect(), "5h 9s");
    parsed(v, "cards!(one line)", poker::cards!("5h\r\n9s").collect(), "5h 9s");
    { let s = String::from("5h\r\n9s"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "5h 9s"); }
    { const L: [poker::Card; 2] = poker::cards!(Five, Spades; Nine, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "5s 9d"); }
    { const L: [poker::Card; 2] = poker::cards![Five of Spades, Nine of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "5s 9d"); }
    parsed(v, "cards!(texts)", poker::cards!("5s", "9d").collect(), "5s 9d");
    parsed(v, "cards!(one line)", poker::cards!("5s 9d").collect(), "5s 9d");
    { let s = String::from("5s 9d"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "5s 9d"); }
    { const L: [poker::Card; 2] = poker::cards!(Five, Diamonds; Ten, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "5d Tc"); }
    { const L: [poker::Card; 2] = poker::cards![Five of Diamonds, Ten of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "5d Tc"); }
    parsed(v, "cards!(texts)", poker::cards!("5d", "Tc",).collect(), "5d Tc");
    parsed(v, "cards!(one line)", poker::cards!(" 5d  Tc\n").collect(), "5d Tc");
    { let s = String::from(" 5d  Tc\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "5d Tc"); }
    { const L: [poker::Card; 2] = poker::cards!(Six, Clubs; Ten, Hearts); many(v, "cards!(rank, suit; ..)", &L, "6c Th"); }
    { const L: [poker::Card; 2] = poker::cards![Six of Clubs, Ten of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "6c Th"); }
    parsed(v, "cards!(texts)", poker::cards!("6c", "Th").collect(), "6c Th");
    parsed(v, "cards!(one line)", poker::cards!("6c\tTh").collect(), "6c Th");
    { let s = String::from("6c\tTh"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "6c Th"); }
    { const L: [poker::Card; 2] = poker::cards!(Six, Hearts; Ten, Spades;); many(v, "cards!(rank, suit; ..)", &L, "6h Ts"); }
    { const L: [poker::Card; 2] = poker::cards![Six of Hearts, Ten of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "6h Ts"); }
    parsed(v, "cards!(texts)", poker::cards!("6h", "Ts",).collect(), "6h Ts");
    parsed(v, "cards!(one line)", poker::cards!("6h\nTs").collect(), "6h Ts");
    { let s = String::from("6h\nTs"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "6h Ts"); }
    { const L: [poker::Card; 2] = poker::cards!(Six, Spades; Ten, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "6s Td"); }
    { const L: [poker::Card; 2] = poker::cards![Six of Spades, Ten of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "6s Td"); }
    parsed(v, "cards!(texts)", poker::cards!("6s", "Td").collect(), "6s Td");
    parsed(v, "cards!(one line)", poker::cards!(" 6s \t Td\n").collect(), "6s Td");
    { let s = String::from(" 6s \t Td\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "6s Td"); }
    { const L: [poker::Card; 2] = poker::cards!(Six, Diamonds; Jack, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "6d Jc"); }
    { const L: [poker::Card; 2] = poker::cards![Six of Diamonds, Jack of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "6d Jc"); }
    parsed(v, "cards!(texts)", poker::cards!("6d", "Jc",).collect(), "6d Jc");
    parsed(v, "cards!(one line)", poker::cards!("6d Jc").collect(), "6d Jc");
    { let s = String::from("6d Jc"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "6d Jc"); }
    { const L: [poker::Card; 2] = poker::cards!(Seven, Clubs; Jack, Hearts); many(v, "cards!(rank, suit; ..)", &L, "7c Jh"); }
    { const L: [poker::Card; 2] = poker::cards![Seven of Clubs, Jack of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "7c Jh"); }
    parsed(v, "cards!(texts)", poker::cards!("7c", "Jh").collect(), "7c Jh");
    parsed(v, "cards!(one line)", poker::cards!("7c Jh").collect(), "7c Jh");
    { let s = String::from("7c Jh"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "7c Jh"); }
    { const L: [poker::Card; 2] = poker::cards!(Seven, Hearts; Jack, Spades;); many(v, "cards!(rank, suit; ..)", &L, "7h Js"); }
    { const L: [poker::Card; 2] = poker::cards![Seven of Hearts, Jack of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "7h Js"); }
    parsed(v, "cards!(texts)", poker::cards!("7h", "Js",).collect(), "7h Js");
    parsed(v, "cards!(one line)", poker::cards!(" 7h\r\nJs\n").collect(), "7h Js");
    { let s = String::from(" 7h\r\nJs\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "7h Js"); }
    { const L: [poker::Card; 2] = poker::cards!(Seven, Spades; Jack, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "7s Jd"); }
    { const L: [poker::Card; 2] = poker::cards![Seven of Spades, Jack of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "7s Jd"); }
    parsed(v, "cards!(texts)", poker::cards!("7s", "Jd").collect(), "7s Jd");
    parsed(v, "cards!(one line)", poker::cards!("7s Jd").collect(), "7s Jd");
    { let s = String::from("7s Jd"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "7s Jd"); }
    { const L: [poker::Card; 2] = poker::cards!(Seven, Diamonds; Queen, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "7d Qc"); }
    { const L: [poker::Card; 2] = poker::cards![Seven of Diamonds, Queen of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "7d Qc"); }
    parsed(v, "cards!(texts)", poker::cards!("7d", "Qc",).collect(), "7d Qc");
    parsed(v, "cards!(one line)", poker::cards!("7d  Qc").collect(), "7d Qc");
    { let s = String::from("7d  Qc"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "7d Qc"); }
    { const L: [poker::Card; 2] = poker::cards!(Eight, Clubs; Queen, Hearts); many(v, "cards!(rank, suit; ..)", &L, "8c Qh"); }
    { const L: [poker::Card; 2] = poker::cards![Eight of Clubs, Queen of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "8c Qh"); }
    parsed(v, "cards!(texts)", poker::cards!("8c", "Qh").collect(), "8c Qh");
    parsed(v, "cards!(one line)", poker::cards!(" 8c\tQh\n").collect(), "8c Qh");
    { let s = String::from(" 8c\tQh\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "8c Qh"); }
    { const L: [poker::Card; 2] = poker::cards!(Eight, Hearts; Queen, Spades;); many(v, "cards!(rank, suit; ..)", &L, "8h Qs"); }
    { const L: [poker::Card; 2] = poker::cards![Eight of Hearts, Queen of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "8h Qs"); }
    parsed(v, "cards!(texts)", poker::cards!("8h", "Qs",).collect(), "8h Qs");
    parsed(v, "cards!(one line)", poker::cards!("8h\nQs").collect(), "8h Qs");
    { let s = String::from("8h\nQs"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "8h Qs"); }
}
fn lists_4(v: &mut Vec<Case>) {
    { const L: [poker::Card; 2] = poker::cards!(Eight, Spades; Queen, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "8s Qd"); }
    { const L: [poker::Card; 2] = poker::cards![Eight of Spades, Queen of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "8s Qd"); }
    parsed(v, "cards!(texts)", poker::cards!("8s", "Qd").collect(), "8s Qd");
    parsed(v, "cards!(one line)", poker::cards!(" 8s Qd\n").collect(), "8s Qd");
    { let s = String::from(" 8s Qd\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "8s Qd"); }
    { const L: [poker::Card; 2] = poker::cards!(Eight, Diamonds; King, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "8d Kc"); }
    { const L: [poker::Card; 2] = poker::cards![Eight of Diamonds, King of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "8d Kc"); }
    parsed(v, "cards!(texts)", poker::cards!("8d", "Kc",).collect(), "8d Kc");
    parsed(v, "cards!(one line)", poker::cards!("8d  Kc").collect(), "8d Kc");
    { let s = String::from("8d  Kc"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "8d Kc"); }
    { const L: [poker::Card; 2] = poker::cards!(Nine, Clubs; King, Hearts); many(v, "cards!(rank, suit; ..)", &L, "9c Kh"); }
    { const L: [poker::Card; 2] = poker::cards![Nine of Clubs, King of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "9c Kh"); }
    parsed(v, "cards!(texts)", poker::cards!("9c", "Kh").collect(), "9c Kh");
    parsed(v, "cards!(one line)", poker::cards!("9c\tKh").collect(), "9c Kh");
    { let s = String::from("9c\tKh"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9c Kh"); }
    { const L: [poker::Card; 2] = poker::cards!(Nine, Hearts; King, Spades;); many(v, "cards!(rank, suit; ..)", &L, "9h Ks"); }
    { const L: [poker::Card; 2] = poker::cards![Nine of Hearts, King of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "9h Ks"); }
    parsed(v, "cards!(texts)", poker::cards!("9h", "Ks",).collect(), "9h Ks");
    parsed(v, "cards!(one line)", poker::cards!(" 9h\nKs\n").collect(), "9h Ks");
    { let s = String::from(" 9h\nKs\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9h Ks"); }
    { const L: [poker::Card; 2] = poker::cards!(Nine, Spades; King, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "9s Kd"); }
    { const L: [poker::Card; 2] = poker::cards![Nine of Spades, King of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "9s Kd"); }
    parsed(v, "cards!(texts)", poker::cards!("9s", "Kd").collect(), "9s Kd");
    parsed(v, "cards!(one line)", poker::cards!("9s \t Kd").collect(), "9s Kd");
    { let s = String::from("9s \t Kd"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9s Kd"); }
    { const L: [poker::Card; 2] = poker::cards!(Nine, Diamonds; Ace, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "9d Ac"); }
    { const L: [poker::Card; 2] = poker::cards![Nine of Diamonds, Ace of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "9d Ac"); }
    parsed(v, "cards!(texts)", poker::cards!("9d", "Ac",).collect(), "9d Ac");
    parsed(v, "cards!(one line)", poker::cards!("9d Ac").collect(), "9d Ac");
    { let s = String::from("9d Ac"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "9d Ac"); }
    { const L: [poker::Card; 2] = poker::cards!(Ten, Clubs; Ace, Hearts); many(v, "cards!(rank, suit; ..)", &L, "Tc Ah"); }
    { const L: [poker::Card; 2] = poker::cards![Ten of Clubs, Ace of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "Tc Ah"); }
    parsed(v, "cards!(texts)", poker::cards!("Tc", "Ah").collect(), "Tc Ah");
    parsed(v, "cards!(one line)", poker::cards!(" Tc Ah\n").collect(), "Tc Ah");
    { let s = String::from(" Tc Ah\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Tc Ah"); }
    { const L: [poker::Card; 2] = poker::cards!(Ten, Hearts; Ace, Spades;); many(v, "cards!(rank, suit; ..)", &L, "Th As"); }
    { const L: [poker::Card; 2] = poker::cards![Ten of Hearts, Ace of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "Th As"); }
    parsed(v, "cards!(texts)", poker::cards!("Th", "As",).collect(), "Th As");
    parsed(v, "cards!(one line)", poker::cards!("Th\r\nAs").collect(), "Th As");
    { let s = String::from("Th\r\nAs"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Th As"); }
    { const L: [poker::Card; 2] = poker::cards!(Ten, Spades; Ace, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "Ts Ad"); }
    { const L: [poker::Card; 2] = poker::cards![Ten of Spades, Ace of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "Ts Ad"); }
    parsed(v, "cards!(texts)", poker::cards!("Ts", "Ad").collect(), "Ts Ad");
    parsed(v, "cards!(one line)", poker::cards!("Ts Ad").collect(), "Ts Ad");
    { let s = String::from("Ts Ad"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Ts Ad"); }
    { const L: [poker::Card; 2] = poker::cards!(Ten, Diamonds; Two, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "Td 2c"); }
    { const L: [poker::Card; 2] = poker::cards![Ten of Diamonds, Two of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "Td 2c"); }
    parsed(v, "cards!(texts)", poker::cards!("Td", "2c",).collect(), "Td 2c");
    parsed(v, "cards!(one line)", poker::cards!(" Td  2c\n").collect(), "Td 2c");
    { let s = String::from(" Td  2c\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Td 2c"); }
    { const L: [poker::Card; 2] = poker::cards!(Jack, Clubs; Two, Hearts); many(v, "cards!(rank, suit; ..)", &L, "Jc 2h"); }
    { const L: [poker::Card; 2] = poker::cards![Jack of Clubs, Two of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "Jc 2h"); }
    parsed(v, "cards!(texts)", poker::cards!("Jc", "2h").collect(), "Jc 2h");
    parsed(v, "cards!(one line)", poker::cards!("Jc\t2h").collect(), "Jc 2h");
    { let s = String::from("Jc\t2h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Jc 2h"); }
    { const L: [poker::Card; 2] = poker::cards!(Jack, Hearts; Two, Spades;); many(v, "cards!(rank, suit; ..)", &L, "Jh 2s"); }
    { const L: [poker::Card; 2] = poker::cards![Jack of Hearts, Two of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "Jh 2s"); }
    parsed(v, "cards!(texts)", poker::cards!("Jh", "2s",).collect(), "Jh 2s");
    parsed(v, "cards!(one line)", poker::cards!("Jh\n2s").collect(), "Jh 2s");
    { let s = String::from("Jh\n2s"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Jh 2s"); }
    { const L: [poker::Card; 2] = poker::cards!(Jack, Spades; Two, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "Js 2d"); }
    { const L: [poker::Card; 2] = poker::cards![Jack of Spades, Two of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "Js 2d"); }
    parsed(v, "cards!(texts)", poker::cards!("Js", "2d").collect(), "Js 2d");
    parsed(v, "cards!(one line)", poker::cards!(" Js \t 2d\n").collect(), "Js 2d");
    { let s = String::from(" Js \t 2d\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Js 2d"); }
    { const L: [poker::Card; 2] = poker::cards!(Jack, Diamonds; Three, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "Jd 3c"); }
    { const L: [poker::Card; 2] = poker::cards![Jack of Diamonds, Three of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "Jd 3c"); }
    parsed(v, "cards!(texts)", poker::cards!("Jd", "3c",).collect(), "Jd 3c");
    parsed(v, "cards!(one line)", poker::cards!("Jd 3c").collect(), "Jd 3c");
    { let s = String::from("Jd 3c"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Jd 3c"); }
    { const L: [poker::Card; 2] = poker::cards!(Queen, Clubs; Three, Hearts); many(v, "cards!(rank, suit; ..)", &L, "Qc 3h"); }
    { const L: [poker::Card; 2] = poker::cards![Queen of Clubs, Three of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "Qc 3h"); }
    parsed(v, "cards!(texts)", poker::cards!("Qc", "3h").collect(), "Qc 3h");
    parsed(v, "cards!(one line)", poker::cards!("Qc 3h").collect(), "Qc 3h");
    { let s = String::from("Qc 3h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Qc 3h"); }
    { const L: [poker::Card; 2] = poker::cards!(Queen, Hearts; Three, Spades;); many(v, "cards!(rank, suit; ..)", &L, "Qh 3s"); }
    { const L: [poker::Card; 2] = poker::cards![Queen of Hearts, Three of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "Qh 3s"); }
    parsed(v, "cards!(texts)", poker::cards!("Qh", "3s",).collect(), "Qh 3s");
    parsed(v, "cards!(one line)", poker::cards!(" Qh\r\n3s\n").collect(), "Qh 3s");
    { let s = String::from(" Qh\r\n3s\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Qh 3s"); }
    { const L: [poker::Card; 2] = poker::cards!(Queen, Spades; Three, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "Qs 3d"); }
    { const L: [poker::Card; 2] = poker::cards![Queen of Spades, Three of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "Qs 3d"); }
    parsed(v, "cards!(texts)", poker::cards!("Qs", "3d").collect(), "Qs 3d");
    parsed(v, "cards!(one line)", poker::cards!("Qs 3d").collect(), "Qs 3d");
    { let s = String::from("Qs 3d"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Qs 3d"); }
    { const L: [poker::Card; 2] = poker::cards!(Queen, Diamonds; Four, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "Qd 4c"); }
    { const L: [poker::Card; 2] = poker::cards![Queen of Diamonds, Four of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "Qd 4c"); }
    parsed(v, "cards!(texts)", poker::cards!("Qd", "4c",).collect(), "Qd 4c");
    parsed(v, "cards!(one line)", poker::cards!("Qd  4c").collect(), "Qd 4c");
    { let s = String::from("Qd  4c"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Qd 4c"); }
    { const L: [poker::Card; 2] = poker::cards!(King, Clubs; Four, Hearts); many(v, "cards!(rank, suit; ..)", &L, "Kc 4h"); }
    { const L: [poker::Card; 2] = poker::cards![King of Clubs, Four of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "Kc 4h"); }
    parsed(v, "cards!(texts)", poker::cards!("Kc", "4h").collect(), "Kc 4h");
    parsed(v, "cards!(one line)", poker::cards!(" Kc\t4h\n").collect(), "Kc 4h");
    { let s = String::from(" Kc\t4h\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Kc 4h"); }
    { const L: [poker::Card; 2] = poker::cards!(King, Hearts; Four, Spades;); many(v, "cards!(rank, suit; ..)", &L, "Kh 4s"); }
    { const L: [poker::Card; 2] = poker::cards![King of Hearts, Four of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "Kh 4s"); }
    parsed(v, "cards!(texts)", poker::cards!("Kh", "4s",).collect(), "Kh 4s");
    parsed(v, "cards!(one line)", poker::cards!("Kh\n4s").collect(), "Kh 4s");
    { let s = String::from("Kh\n4s"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Kh 4s"); }
}
fn lists_5(v: &mut Vec<Case>) {
    { const L: [poker::Card; 2] = poker::cards!(King, Spades; Four, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "Ks 4d"); }
    { const L: [poker::Card; 2] = poker::cards![King of Spades, Four of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "Ks 4d"); }
    parsed(v, "cards!(texts)", poker::cards!("Ks", "4d").collect(), "Ks 4d");
    parsed(v, "cards!(one line)", poker::cards!(" Ks 4d\n").collect(), "Ks 4d");
    { let s = String::from(" Ks 4d\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Ks 4d"); }
    { const L: [poker::Card; 2] = poker::cards!(King, Diamonds; Five, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "Kd 5c"); }
    { const L: [poker::Card; 2] = poker::cards![King of Diamonds, Five of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "Kd 5c"); }
    parsed(v, "cards!(texts)", poker::cards!("Kd", "5c",).collect(), "Kd 5c");
    parsed(v, "cards!(one line)", poker::cards!("Kd  5c").collect(), "Kd 5c");
    { let s = String::from("Kd  5c"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Kd 5c"); }
    { const L: [poker::Card; 2] = poker::cards!(Ace, Clubs; Five, Hearts); many(v, "cards!(rank, suit; ..)", &L, "Ac 5h"); }
    { const L: [poker::Card; 2] = poker::cards![Ace of Clubs, Five of Hearts]; many(v, "cards!(rank of suit, ..)", &L, "Ac 5h"); }
    parsed(v, "cards!(texts)", poker::cards!("Ac", "5h").collect(), "Ac 5h");
    parsed(v, "cards!(one line)", poker::cards!("Ac\t5h").collect(), "Ac 5h");
    { let s = String::from("Ac\t5h"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Ac 5h"); }
    { const L: [poker::Card; 2] = poker::cards!(Ace, Hearts; Five, Spades;); many(v, "cards!(rank, suit; ..)", &L, "Ah 5s"); }
    { const L: [poker::Card; 2] = poker::cards![Ace of Hearts, Five of Spades,]; many(v, "cards!(rank of suit, ..)", &L, "Ah 5s"); }
    parsed(v, "cards!(texts)", poker::cards!("Ah", "5s",).collect(), "Ah 5s");
    parsed(v, "cards!(one line)", poker::cards!(" Ah\n5s\n").collect(), "Ah 5s");
    { let s = String::from(" Ah\n5s\n"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Ah 5s"); }
    { const L: [poker::Card; 2] = poker::cards!(Ace, Spades; Five, Diamonds); many(v, "cards!(rank, suit; ..)", &L, "As 5d"); }
    { const L: [poker::Card; 2] = poker::cards![Ace of Spades, Five of Diamonds]; many(v, "cards!(rank of suit, ..)", &L, "As 5d"); }
    parsed(v, "cards!(texts)", poker::cards!("As", "5d").collect(), "As 5d");
    parsed(v, "cards!(one line)", poker::cards!("As \t 5d").collect(), "As 5d");
    { let s = String::from("As \t 5d"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "As 5d"); }
    { const L: [poker::Card; 2] = poker::cards!(Ace, Diamonds; Six, Clubs;); many(v, "cards!(rank, suit; ..)", &L, "Ad 6c"); }
    { const L: [poker::Card; 2] = poker::cards![Ace of Diamonds, Six of Clubs,]; many(v, "cards!(rank of suit, ..)", &L, "Ad 6c"); }
    parsed(v, "cards!(texts)", poker::cards!("Ad", "6c",).collect(), "Ad 6c");
    parsed(v, "cards!(one line)", poker::cards!("Ad 6c").collect(), "Ad 6c");
    { let s = String::from("Ad 6c"); parsed(v, "cards!(line variable)", poker::cards!(s).collect(), "Ad 6c"); }
}
