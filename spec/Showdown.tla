------------------------------ MODULE Showdown ------------------------------
(* A table: cards are dealt one at a time from a small deck to Players       *)
(* players (Hole cards each) and a board, then the hands are ranked in three *)
(* ways a user may choose: running maximum, sorting, comparing every pair.   *)
(* TLC follows every deal and checks that all three find the same winners,   *)
(* that there is always at least one, that ties are split exactly between    *)
(* equal hands, and that renaming the suits changes nothing.                 *)
EXTENDS Rules

CONSTANTS Players, Hole, Board, DeckRanks, DeckSuits
Deck == {MkCard(r, s) : r \in DeckRanks, s \in DeckSuits}

VARIABLES left, hands, board, stage, best, winners
vars == <<left, hands, board, stage, best, winners>>

Init == /\ left = Deck /\ hands = [p \in 1..Players |-> {}] /\ board = {}
        /\ stage = 0 /\ best = -1 /\ winners = {}
Highest(S) == IF S = {} THEN -1 ELSE Max(S)
\* a player's cards come in ascending order: their order does not matter
DealHole(c) == /\ stage = 0
               /\ \E p \in 1..Players :
                    /\ Cardinality(hands[p]) < Hole
                    /\ \A q \in 1..(p - 1) : Cardinality(hands[q]) = Hole
                    /\ c > Highest(hands[p])
                    /\ hands' = [hands EXCEPT ![p] = @ \cup {c}]
               /\ left' = left \ {c}
               /\ UNCHANGED <<board, stage, best, winners>>
DealBoard(c) == /\ stage = 0
                /\ \A p \in 1..Players : Cardinality(hands[p]) = Hole
                /\ Cardinality(board) < Board /\ c > Highest(board)
                /\ board' = board \cup {c} /\ left' = left \ {c}
                /\ UNCHANGED <<hands, stage, best, winners>>
Dealt == Cardinality(board) = Board
ShowHands == /\ stage = 0 /\ Dealt /\ stage' = 1
             /\ UNCHANGED <<left, hands, board, best, winners>>
Score(p) == Best(hands[p] \cup board)
\* the running maximum, one player at a time
Look == /\ stage \in 1..Players
        /\ LET k == Score(stage) IN
             /\ best' = IF k > best THEN k ELSE best
             /\ winners' = IF k > best THEN {stage} ELSE IF k = best THEN winners \cup {stage} ELSE winners
        /\ stage' = stage + 1
        /\ UNCHANGED <<left, hands, board>>
Next == (\E c \in left : DealHole(c) \/ DealBoard(c)) \/ ShowHands \/ Look
Spec == Init /\ [][Next]_vars

Over == stage = Players + 1
CardsConserved == left \cup board \cup UNION {hands[p] : p \in 1..Players} = Deck
                  /\ Cardinality(left) + Cardinality(board)
                     + FoldSet(LAMBDA p, n : n + Cardinality(hands[p]), 0, 1..Players) = Cardinality(Deck)
BySorting == LET q == SetToSortSeq(1..Players, LAMBDA a, b : Score(a) > Score(b) \/ (Score(a) = Score(b) /\ a < b))
             IN  {p \in 1..Players : Score(p) = Score(q[1])}
ByPairs == {p \in 1..Players : \A q \in 1..Players : ~(Score(q) > Score(p))}
WaysAgree == Over => winners = BySorting /\ winners = ByPairs
SomeoneWins == Over => winners # {}
Swapped(S) == {MkCard(RankOf(c), CASE SuitOf(c) = 0 -> 1 [] SuitOf(c) = 1 -> 0 [] OTHER -> SuitOf(c)) : c \in S}
SuitsDoNotMatter == Over => \A p \in 1..Players : Best(Swapped(hands[p] \cup board)) = Score(p)
\* a player's hand is at least what the board alone makes
BoardPlays == (Over /\ Board >= 5) => \A p \in 1..Players : Score(p) >= Best(board)
=============================================================================
