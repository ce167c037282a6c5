------------------------------ MODULE BestOfN ------------------------------
(* How a hand of six or more cards is evaluated, step by step: an iterator   *)
(* over the five-card combinations of the input positions (index vector,     *)
(* advanced in lexicographic order) and the strongest strength met so far.   *)
(* TLC runs it on every deal of N cards from the pool and checks that it     *)
(* visits every combination exactly once, that the maximum it ends with is   *)
(* the strongest five-card subset, and that the closed form used elsewhere   *)
(* (Rules!BestDirect) is the same number.                                    *)
EXTENDS Rules

CONSTANTS PoolRanks, PoolSuits, Sizes,
          Mixed          \* also deal the cards in descending input order

Pool == {MkCard(r, s) : r \in PoolRanks, s \in PoolSuits}
Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
VARIABLES input, idx, best, visited, done
vars == <<input, idx, best, visited, done>>

Deals == UNION {{S \in SUBSET Pool : Cardinality(S) = n} : n \in Sizes}
Hand5 == {input[idx[i]] : i \in 1..5}

Init == /\ \E S \in Deals : input \in ({Ascending(S)} \cup (IF Mixed THEN {Reverse(Ascending(S))} ELSE {}))
        /\ idx = [i \in 1..5 |-> i]
        /\ best = -1 /\ visited = {} /\ done = FALSE

\* the largest position that can still move
Movable == {i \in 1..5 : idx[i] < Len(input) - 5 + i}
Advance == IF Movable = {} THEN idx
           ELSE LET i == Max(Movable) IN
                [j \in 1..5 |-> IF j < i THEN idx[j] ELSE idx[i] + 1 + (j - i)]
Visit == /\ ~done
         /\ best' = (IF StrengthOf(Hand5) > best THEN StrengthOf(Hand5) ELSE best)
         /\ visited' = visited \cup {idx}
         /\ done' = (Movable = {})
         /\ idx' = Advance
         /\ UNCHANGED input
Next == Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == /\ \A i \in 1..5 : idx[i] \in 1..Len(input)
          /\ \A i \in 1..4 : idx[i] < idx[i + 1]
NeverTwice == ~done => idx \notin visited
RECURSIVE Binomial(_, _)
Binomial(n, k) == IF k = 0 THEN 1 ELSE (Binomial(n - 1, k - 1) * n) \div k
AllVisited == done => Cardinality(visited) = Binomial(Len(input), 5)
FindsTheBest == done => best = BestByDefinition(Range(input))
ClosedForm == done => best = BestDirect(Range(input))
\* one more card never makes the hand worse
Monotone == done => \A i \in DOMAIN input :
               Len(input) > 5 => BestDirect(Range(input) \ {input[i]}) <= best
ClassIsOfBest == done => ClassOfStrength(best) \in {ClassOf(H) : H \in FiveSubsets(Range(input))}
Terminates == <>done
=============================================================================
