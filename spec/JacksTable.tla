----------------------------- MODULE JacksTable -----------------------------
(* The deck, the hand and the credits of the video-poker example, for any    *)
(* set of cards, any wagers and any history: what Jacks says with the deck   *)
(* left out.  JacksProof proves the invariant; TLC checks that Jacks, with   *)
(* the deck being the cards not on the table, implements this (JacksMC).     *)
EXTENDS Integers

CONSTANTS AllCards, MaxWager, StartCredits, Payable
VARIABLES phase, credits, wager, deck, hand
tvars == <<phase, credits, wager, deck, hand>>

P == 1..5
Injective(S, f) == \A i, j \in S : f[i] = f[j] => i = j
On(S, f) == {f[i] : i \in S}

TInit == /\ phase = "wager" /\ credits = StartCredits /\ wager = 0
         /\ deck = AllCards /\ hand = <<>>

TBet == /\ phase = "wager" /\ phase' = "swap"
        /\ wager' \in 1..MaxWager /\ wager' <= credits /\ credits' = credits - wager'
        /\ hand' \in [P -> deck] /\ Injective(P, hand')
        /\ deck' = deck \ On(P, hand')
\* a swap: the discards go back first, so they may come again
Dealt(S, new) == new \in [S -> deck \cup On(S, hand)] /\ Injective(S, new)
Shown(S, new) == [i \in P |-> IF i \in S THEN new[i] ELSE hand[i]]
Left(S, new) == (deck \cup On(S, hand)) \ On(S, new)
TPaid(w) ==
        /\ phase = "swap" /\ hand' = <<>> /\ wager' = 0
        /\ credits' = credits + (IF w > 0 THEN wager + w ELSE 0)
        /\ phase' = IF credits' = 0 THEN "over" ELSE "wager"
TFinish(S, new, w) == /\ TPaid(w) /\ Dealt(S, new)
                      /\ deck' = Left(S, new) \cup On(P, Shown(S, new))
TLeave == phase # "over" /\ phase' = "over" /\ UNCHANGED <<credits, wager, deck, hand>>

TNext == \/ TBet
         \/ TLeave
         \/ \E w \in Payable : TPaid(w) /\ \E S \in SUBSET P : \E new \in [S -> deck \cup On(S, hand)] : TFinish(S, new, w)
TSpec == TInit /\ [][TNext]_tvars

OnTable == phase = "swap"
Intact == /\ hand \in [P -> AllCards] /\ Injective(P, hand)
          /\ deck = AllCards \ On(P, hand)
TInv == /\ credits \in Nat /\ wager \in Nat
        /\ phase = "wager" => credits > 0 /\ deck = AllCards
        /\ phase = "swap" => Intact /\ wager \in 1..MaxWager
=============================================================================
