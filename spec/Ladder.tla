------------------------------- MODULE Ladder ------------------------------
(* All five-card hands, up to the choice of suits, as one walk from the      *)
(* weakest to the strongest: the state is the current step, one action       *)
(* climbs one step.  The invariants and action properties are the facts the  *)
(* rules of poker are known to satisfy; the walk is also written out as the  *)
(* table the implementation is compared with hand by hand.                   *)
EXTENDS Hands, Json, IOUtils

VARIABLES at, dealt        \* current step; how many concrete hands so far, per class
vars == <<at, dealt>>
Init == at = 1 /\ dealt = [c \in 0..8 |-> IF c = Steps[1].cat THEN Steps[1].mult ELSE 0]
Climb == /\ at < Len(Steps)
         /\ at' = at + 1
         /\ dealt' = [dealt EXCEPT ![Steps[at + 1].cat] = @ + Steps[at + 1].mult]
Next == Climb
Spec == Init /\ [][Next]_vars

(* ---- invariants ---- *)
Here == Steps[at]
HereWeakest == at = 1 => Here.name = "High card, seven" /\ Here.ranks = <<5, 3, 2, 1, 0>> /\ ~Here.suited
HereStrongest == at = Len(Steps) => Here.name = "Royal flush"
DefiningRanksPresent == /\ Here.r1 \in Range(Here.ranks)
                        /\ (Here.r2 # None => Here.r2 \in Range(Here.ranks) /\ Here.r2 # Here.r1)
PairsDescend == Here.cat = TwoPair => Here.r1 > Here.r2
SuitedOnlyFlushes == Here.suited <=> Here.cat \in {Flush, StraightFlush}
ClassRecoverable == LET k == ClassOfStrength(Here.key) IN
                    k.cat = Here.cat /\ k.r1 = Here.r1 /\ k.r2 = Here.r2
\* the well-known numbers of hands per class
KnownTotals == at = Len(Steps) =>
    dealt = [c \in 0..8 |-> <<1302540, 1098240, 123552, 54912, 10200,
                              5108, 3744, 624, 40>>[c + 1]]
KnownStrengths == Len(Steps) = 7462
(* ---- action properties: each step up is a strict improvement by the       *)
(* lexicographic rule, and the class never goes down                         *)
Improves == [][ /\ LexLess(Steps[at].rank5, Steps[at'].rank5)
                /\ ~LexLess(Steps[at'].rank5, Steps[at].rank5)
                /\ Steps[at].ckey <= Steps[at'].ckey ]_vars

(* ---- the table for the implementation ---- *)
Export == TLCGet("level") >= 0 /\ ndJsonSerialize(IOEnv.OUT,
            [i \in 1..Len(Steps) |-> [ranks |-> Steps[i].ranks, suited |-> Steps[i].suited,
               cat |-> Steps[i].cat, r1 |-> Steps[i].r1, r2 |-> Steps[i].r2, key |-> Steps[i].key,
               name |-> Steps[i].name, mult |-> Steps[i].mult, ord |-> i]])
=============================================================================
