---------------------------- MODULE ShuffleModel ----------------------------
(* Shuffling as the library does it (a Fisher-Yates walk from the back, one  *)
(* draw of the generator per step), for a small deck.  TLC follows every     *)
(* sequence of draws.  The deck stays a permutation throughout, and the      *)
(* draws can be read back from the final deck: so the N! equally likely      *)
(* sequences of draws give N! different decks, each card can end anywhere,   *)
(* and no order of two cards is favoured.                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

CONSTANT N
Deck0 == [i \in 1..N |-> i]
VARIABLES deck, i, draws
vars == <<deck, i, draws>>
Init == deck = Deck0 /\ i = N /\ draws = <<>>
SwapTo(d, a, b) == [d EXCEPT ![a] = d[b], ![b] = d[a]]
Draw(j) == /\ i > 1
           /\ deck' = SwapTo(deck, i, j)
           /\ draws' = Append(draws, j)
           /\ i' = i - 1
Next == \E j \in 1..i : Draw(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

IsPermutation == Range(deck) = 1..N /\ Len(deck) = N
\* undo the walk: what was drawn when position k was filled
RECURSIVE ReadBack(_, _, _)
ReadBack(d, k, start) ==     \* start: the deck before position k was filled
    IF k = 1 THEN <<>>
    ELSE LET j == CHOOSE p \in 1..k : start[p] = d[k]
         IN  <<j>> \o ReadBack(d, k - 1, SwapTo(start, k, j))
DrawsRecoverable == i = 1 => ReadBack(deck, N, Deck0) = draws
EveryDrawCounts == Len(draws) = N - i
Terminates == <>(i = 1)

\* reached decks, kept in a register (one worker): all N! of them
Fact[n \in 0..20] == IF n = 0 THEN 1 ELSE n * Fact[n - 1]
Remember == i = 1 => TLCSet(1, TLCGet(1) \cup {deck})
Start == TLCSet(1, {})
ASSUME Start
EveryDeckReached ==
    LET s == TLCGet(1) IN
    /\ Cardinality(s) = Fact[N]
    /\ \A c, p \in 1..N : Cardinality({d \in s : d[p] = c}) = Fact[N - 1]
    /\ \A a, b \in 1..N : a # b =>
         2 * Cardinality({d \in s : (CHOOSE p \in 1..N : d[p] = a) < (CHOOSE p \in 1..N : d[p] = b)}) = Fact[N]
=============================================================================
