------------------------------ MODULE JacksMC ------------------------------
(* Jacks with few cards, few credits and a vocabulary of lines, explored      *)
(* exhaustively.                                                             *)
EXTENDS Jacks

CONSTANTS Pool,          \* cards that may come, by name
          Ceiling        \* games are followed while the credits are below this

C(t) == [i \in 1..Len(t) |-> SubSeq(t, i, i)]
WagerLines == {C(t) : t \in {"", "quit", "0", "1", "2", "5", "6", "+3", "05", " 1", "-1", "1x", "18446744073709551615", "18446744073709551616"}}
SwapLines == {C(t) : t \in {"", " ", "quit", "1", "2 4", " 5  3 ", "1 2 3 4 5", "1 2 3 4 5 1", "1 1", "2 1 2 1", "0", "6", "1 x", "+1", "1 18446744073709551616"}}
Deck == {CardOfName[n] : n \in Pool}
Sorted(S) == SetToSortSeq(S, <)
Deal == TLCEval({Sorted(S) : S \in kSubset(5, Deck)})
\* the new cards in ascending positions: which of them goes where decides nothing
Place(S, R) == LET p == Sorted(S)   q == Sorted(R)
                   at(i) == CHOOSE k \in DOMAIN p : p[k] = i
               IN  [i \in 1..5 |-> IF i \in S THEN q[at(i)] ELSE hand[i]]
Kept(S) == {hand[i] : i \in (1..5) \ S}
Redeals(S) == {Place(S, R) : R \in kSubset(Cardinality(S), Deck \ Kept(S))}

MNext == \/ phase = "wager" /\ \E s \in WagerLines :
              RefusedAtWager(s) \/ Leave(s) \/ (\E h \in Deal : Bet(s, h))
         \/ phase = "swap" /\ \E s \in SwapLines :
              RefusedAtSwap(s) \/ Leave(s)
              \/ (SwapSays(s).ok /\ \E h \in Redeals(SwapSays(s).swaps) : Finish(s, h))
         \/ EndOfInput
MSpec == JInit /\ [][MNext]_jvars
Bounded == credits < Ceiling

\* C18
HandsAreIntact == phase = "swap" => IsHand(hand)
\* C19
NeverNegative == credits >= 0
BetsCovered == phase = "swap" => wager \in 1..MaxWager
PlayersHaveCredits == phase = "wager" => credits > 0
\* the game ends by itself exactly at zero: a step to the end that is neither quitting nor the end of input
EndsAtZero == [][(phase' = "over" /\ hand' = <<>> /\ hand # <<>>) => credits' = 0]_jvars
RoundPays == [][(phase = "swap" /\ phase' # phase /\ hand' = <<>>)
                => (credits' = credits \/ credits' - credits - wager \in {k * wager : k \in {1, 2, 3, 4, 6, 9, 25, 50, 250}} \cup {4000})]_jvars
OnlyRoyalAtFivePays4000 == [][(phase = "swap" /\ credits' - credits = 4005) => wager = 5]_jvars
\* C20: nothing but bets, swaps and leaving changes anything
NothingElseChanges == [][\/ phase = "wager" /\ phase' = "swap" /\ credits' = credits - wager' /\ wager' \in 1..MaxWager /\ wager' <= credits
                         \/ phase = "swap" /\ hand' = <<>> /\ credits' >= credits
                         \/ phase' = "over" /\ UNCHANGED <<credits, wager, hand>>]_jvars
Decided == /\ \A s \in WagerLines : ENABLED (RefusedAtWager(s) \/ Leave(s)) \/ phase # "wager" \/ WagerSays(s, credits).ok
           /\ \A s \in SwapLines : s = Quit \/ SwapSays(s).ok \in BOOLEAN
\* with the deck being the cards not on the table this is JacksTable, about which JacksProof
\* proves that no card is lost or doubled and that credits stay exact
Table == INSTANCE JacksTable WITH AllCards <- Deck, deck <- Deck \ Range(hand),
                                  Payable <- {0, 4000} \cup {k * w : k \in {1, 2, 3, 4, 6, 9, 25, 50, 250}, w \in 1..MaxWager}
IsATable == Table!TSpec
=============================================================================
