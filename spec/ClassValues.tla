---------------------------- MODULE ClassValues ----------------------------
(* Every class value a user can construct (429: some, like a straight headed *)
(* by a two, describe no hand), climbed in their order.  Checks the order    *)
(* and the names, and writes the table the implementation is compared with.  *)
EXTENDS Rules, Json, IOUtils

Single == {HighCard, Pair, Trips, Straight, Flush, Quads, StraightFlush}
Double == {TwoPair, FullHouse}
ClassValue(cat, r1, r2) == [cat |-> cat, r1 |-> r1, r2 |-> r2]
AllValues == {ClassValue(k, a, None) : k \in Single, a \in Ranks}
             \cup {ClassValue(k, a, b) : k \in Double, a \in Ranks, b \in Ranks}
Values == TLCEval(SetToSortSeq(AllValues, LAMBDA x, y : ClassKey(x) < ClassKey(y)))

VARIABLES at, names
vars == <<at, names>>
Init == at = 1 /\ names = {HandName(Values[1])}
Climb == at < Len(Values) /\ at' = at + 1 /\ names' = names \cup {HandName(Values[at + 1])}
Next == Climb
Spec == Init /\ [][Next]_vars

Here == Values[at]
Count == Len(Values) = 429
EveryNameOnce == Cardinality(names) = at
RoyalIsLast == IsRoyal(Here) <=> at = Len(Values)
RoyalNamed == IsRoyal(Here) <=> HandName(Here) = "Royal flush"
\* strictly by class, then first, then second defining rank
Ordered == [][LET x == Values[at]   y == Values[at'] IN
                LexLess(<<x.cat, x.r1, x.r2>>, <<y.cat, y.r1, y.r2>>)]_vars

Export == TLCGet("level") >= 0 /\ ndJsonSerialize(IOEnv.OUT,
            [i \in 1..Len(Values) |-> [cat |-> Values[i].cat, r1 |-> Values[i].r1, r2 |-> Values[i].r2,
               ckey |-> ClassKey(Values[i]), name |-> HandName(Values[i]),
               royal |-> IsRoyal(Values[i]), ord |-> i]])
=============================================================================
