------------------------------ MODULE BestProof -----------------------------
(* The best five of any number of cards.  Choices are the hands that can be  *)
(* made from the cards held, Score their rank.  Looking at them one by one,  *)
(* in any order, keeping the best so far, ends with the maximum, whatever    *)
(* the order; more cards mean more choices, and never a worse best; and two  *)
(* looks at the same cards agree.                                            *)
EXTENDS Integers, TLAPS

CONSTANTS All, Score, Choices, More
ASSUME Given == /\ Score \in [All -> Nat] /\ Choices \subseteq More /\ More \subseteq All

\* m is the best score in S
IsBest(m, S) == (\E c \in S : Score[c] = m) /\ \A c \in S : Score[c] <= m

VARIABLES seen, best
vars == <<seen, best>>
None == -1
Init == seen = {} /\ best = None
Look(c) == /\ c \in Choices \ seen /\ seen' = seen \cup {c}
           /\ best' = IF best = None \/ Score[c] > best THEN Score[c] ELSE best
Next == \E c \in Choices : Look(c)
Spec == Init /\ [][Next]_vars

Inv == /\ seen \subseteq Choices /\ best \in Nat \cup {None}
       /\ best = None <=> seen = {}
       /\ best # None => IsBest(best, seen)

THEOREM KeepsTheBest == Spec => []Inv
<1>1. Init => Inv BY DEF Init, Inv, None
<1>2. ASSUME Inv, NEW c \in Choices, Look(c) PROVE Inv'
  <2>1. Score[c] \in Nat BY Given
  <2>2. \A d \in seen : Score[d] \in Nat
    <3>1. \A d \in seen : d \in All BY <1>2, Given DEF Inv
    <3> QED BY <3>1, Given
  <2>3. CASE best = None BY <1>2, <2>1, <2>2, <2>3 DEF Inv, Look, IsBest, None
  <2>4. CASE best # None BY <1>2, <2>1, <2>2, <2>4 DEF Inv, Look, IsBest, None
  <2> QED BY <2>3, <2>4
<1>3. Inv /\ UNCHANGED vars => Inv' BY DEF Inv, vars
<1>4. Inv /\ [Next]_vars => Inv' BY <1>2, <1>3 DEF Next
<1> QED BY <1>1, <1>4, PTL DEF Spec

\* once all were looked at, the answer is the declared one
THEOREM Spec => [](seen = Choices /\ Choices # {} => IsBest(best, Choices))
<1>1. Inv => (seen = Choices /\ Choices # {} => IsBest(best, Choices)) BY DEF Inv
<1> QED BY <1>1, KeepsTheBest, PTL

THEOREM OnlyOne == ASSUME NEW m \in Nat, NEW n \in Nat, NEW S \in SUBSET All, IsBest(m, S), IsBest(n, S) PROVE m = n
<1> \A c \in S : Score[c] \in Nat BY Given
<1> QED BY DEF IsBest

THEOREM NeverWorse == ASSUME NEW m \in Nat, NEW n \in Nat, IsBest(m, Choices), IsBest(n, More) PROVE m <= n
<1> \A c \in More : Score[c] \in Nat BY Given
<1> QED BY Given DEF IsBest
=============================================================================
