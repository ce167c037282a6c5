---------------------------- MODULE ShuffleProof ----------------------------
(* Shuffling for a deck of any size.  Two shuffles are made side by side,    *)
(* with choices of their own: position i is exchanged with a position up to  *)
(* i, for i going down to 2.  Both decks always hold each card once, and as  *)
(* soon as the choices differ once the decks differ for good.  So different  *)
(* choices give different decks; there are as many ways to choose (N!) as    *)
(* there are decks: every deck comes from exactly one way, and choices made  *)
(* uniformly give uniform decks.  ShuffleModel counts this out for small N.  *)
EXTENDS Integers, TLAPS

CONSTANTS N, Cards, Start
P == 1..N
Injective(f) == \A i, j \in P : f[i] = f[j] => i = j
Onto(f) == \A c \in Cards : \E i \in P : f[i] = c
ASSUME Given == N \in Nat /\ N > 0 /\ Start \in [P -> Cards] /\ Injective(Start) /\ Onto(Start)

VARIABLES i, d1, d2, parted
vars == <<i, d1, d2, parted>>
Exchange(d, a, b) == [k \in P |-> IF k = a THEN d[b] ELSE IF k = b THEN d[a] ELSE d[k]]

Init == i = N /\ d1 = Start /\ d2 = Start /\ parted = FALSE
Step == /\ i > 1 /\ i' = i - 1
        /\ \E j1, j2 \in 1..i :
              /\ d1' = Exchange(d1, i, j1) /\ d2' = Exchange(d2, i, j2)
              /\ parted' = (parted \/ j1 # j2)
Spec == Init /\ [][Step]_vars

Deck(d) == d \in [P -> Cards] /\ Injective(d) /\ Onto(d)
Inv == /\ i \in P /\ parted \in BOOLEAN
       /\ Deck(d1) /\ Deck(d2)
       /\ ~parted => d1 = d2
       /\ parted => \E k \in P : k > i /\ d1[k] # d2[k]

LEMMA Kept == ASSUME NEW d, Deck(d), NEW a \in P, NEW b \in P PROVE Deck(Exchange(d, a, b))
<1> DEFINE e == Exchange(d, a, b)
<1>1. e \in [P -> Cards] BY DEF Exchange, Deck
<1>2. Injective(e) BY DEF Exchange, Deck, Injective
<1>3. Onto(e)
  <2> SUFFICES ASSUME NEW c \in Cards PROVE \E k \in P : e[k] = c BY DEF Onto
  <2>1. PICK k \in P : d[k] = c BY DEF Deck, Onto
  <2>2. CASE k = a BY <2>1, <2>2 DEF Exchange
  <2>3. CASE k = b BY <2>1, <2>3 DEF Exchange
  <2>4. CASE k # a /\ k # b BY <2>1, <2>4 DEF Exchange
  <2> QED BY <2>2, <2>3, <2>4
<1> QED BY <1>1, <1>2, <1>3 DEF Deck

THEOREM Uniform == Spec => []Inv
<1>1. Init => Inv BY Given DEF Init, Inv, Deck, P
<1>2. Inv /\ [Step]_vars => Inv'
  <2> SUFFICES ASSUME Inv, Step PROVE Inv' BY DEF vars, Inv, Deck, Injective, Onto
  <2>1. PICK j1, j2 \in 1..i : d1' = Exchange(d1, i, j1) /\ d2' = Exchange(d2, i, j2) /\ parted' = (parted \/ j1 # j2) BY DEF Step
  <2>2. i \in P /\ j1 \in P /\ j2 \in P /\ i' = i - 1 /\ i' \in P BY Given DEF Inv, Step, P
  <2>3. Deck(d1') /\ Deck(d2') BY <2>1, <2>2, Kept DEF Inv
  <2>4. ASSUME ~parted' PROVE d1' = d2' BY <2>1, <2>4 DEF Inv
  <2>5. ASSUME parted' PROVE \E k \in P : k > i' /\ d1'[k] # d2'[k]
    <3>1. CASE parted
      <4>1. PICK k \in P : k > i /\ d1[k] # d2[k] BY <3>1 DEF Inv
      <4>2. k # i /\ k # j1 /\ k # j2 /\ k > i' BY <4>1, <2>2 DEF P
      <4>3. d1'[k] = d1[k] /\ d2'[k] = d2[k] BY <2>1, <4>2 DEF Exchange
      <4> QED BY <4>1, <4>2, <4>3
    <3>2. CASE ~parted
      <4>1. d1 = d2 /\ j1 # j2 BY <3>2, <2>1, <2>5 DEF Inv
      <4>2. d1'[i] = d1[j1] /\ d2'[i] = d1[j2] BY <2>1, <2>2, <4>1 DEF Exchange
      <4>3. d1[j1] # d1[j2] BY <4>1, <2>2 DEF Inv, Deck, Injective
      <4> QED BY <4>2, <4>3, <2>2 DEF P
    <3> QED BY <3>1, <3>2
  <2>6. parted' \in BOOLEAN BY <2>1 DEF Inv
  <2> QED BY <2>2, <2>3, <2>4, <2>5, <2>6 DEF Inv
<1> QED BY <1>1, <1>2, PTL DEF Spec
=============================================================================
