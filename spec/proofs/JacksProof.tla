----------------------------- MODULE JacksProof -----------------------------
(* No card is lost or doubled and credits stay exact, over any history.      *)
EXTENDS JacksTable, TLAPS

ASSUME Numbers == /\ MaxWager \in Nat /\ MaxWager > 0
                  /\ StartCredits \in Nat /\ StartCredits > 0
                  /\ Payable \subseteq Nat

\* the hand shown after a swap has five cards of the deck, the kept ones where
\* they were, and the rest of the deck is the rest of the cards
LEMMA AfterSwap ==
  ASSUME Intact, NEW S \in SUBSET P, NEW new, Dealt(S, new)
  PROVE /\ Shown(S, new) \in [P -> AllCards] /\ Injective(P, Shown(S, new))
        /\ \A i \in P \ S : Shown(S, new)[i] = hand[i]
        /\ Left(S, new) = AllCards \ On(P, Shown(S, new))
<1> DEFINE s == Shown(S, new)
<1>1. s \in [P -> AllCards] BY DEF Shown, Dealt, Intact, On
<1>2. Injective(P, s) BY DEF Shown, Dealt, Intact, On, Injective
<1>3. \A i \in P \ S : s[i] = hand[i] BY DEF Shown
<1>4. Left(S, new) = AllCards \ On(P, s)
  <2>1. \A c : c \in On(P, s) <=> c \in On(S, new) \/ c \in On(P \ S, hand) BY DEF Shown, On
  <2>2. \A c \in On(P \ S, hand) : c \notin On(S, new) /\ c \notin On(S, hand) BY DEF Intact, Dealt, On, Injective
  <2>3. \A c : c \in On(P, hand) <=> c \in On(S, hand) \/ c \in On(P \ S, hand) BY DEF On
  <2>4. \A c \in On(S, hand) : c \in AllCards BY DEF On, Intact
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF Left, Intact
<1> QED BY <1>1, <1>2, <1>3, <1>4

THEOREM Exact == TSpec => []TInv
<1>1. TInit => TInv BY Numbers DEF TInit, TInv
<1>2. TInv /\ [TNext]_tvars => TInv'
  <2> SUFFICES ASSUME TInv, [TNext]_tvars PROVE TInv' OBVIOUS
  <2>1. CASE TBet BY <2>1, Numbers DEF TBet, TInv, Intact, Injective, On, P
  <2>2. ASSUME NEW S \in SUBSET P, NEW new \in [S -> deck \cup On(S, hand)], NEW w \in Payable, TFinish(S, new, w) PROVE TInv'
    <3>1. Intact /\ Dealt(S, new) BY <2>2 DEF TFinish, TPaid, TInv
    <3>2. deck' = AllCards
      <4>1. Left(S, new) = AllCards \ On(P, Shown(S, new)) /\ Shown(S, new) \in [P -> AllCards] BY <3>1, AfterSwap
      <4>2. On(P, Shown(S, new)) \subseteq AllCards BY <4>1 DEF On
      <4> QED BY <2>2, <4>1, <4>2 DEF TFinish, TPaid
    <3>3. credits' \in Nat /\ wager' \in Nat BY <2>2, Numbers DEF TFinish, TPaid, TInv
    <3> QED BY <2>2, <3>2, <3>3 DEF TFinish, TPaid, TInv
  <2>3. CASE TLeave BY <2>3 DEF TLeave, TInv, Intact
  <2>4. CASE UNCHANGED tvars BY <2>4 DEF tvars, TInv, Intact, Injective, On
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF TNext
<1> QED BY <1>1, <1>2, PTL DEF TSpec

\* a round only ever ends the game at zero credits, and a round that does not
\* pay costs exactly its wager
THEOREM Rounds == TSpec => [][\A S \in SUBSET P : \A new, w : w \in Payable /\ TFinish(S, new, w) =>
                                 /\ phase' = "over" <=> credits' = 0
                                 /\ w = 0 => credits' = credits
                                 /\ w > 0 => credits' = credits + wager + w]_tvars
<1>1. TInv /\ [TNext]_tvars => [\A S \in SUBSET P : \A new, w : w \in Payable /\ TFinish(S, new, w) =>
                                 /\ phase' = "over" <=> credits' = 0
                                 /\ w = 0 => credits' = credits
                                 /\ w > 0 => credits' = credits + wager + w]_tvars
  BY Numbers DEF TFinish, TPaid, TInv
<1> QED BY <1>1, Exact, PTL DEF TSpec
=============================================================================
