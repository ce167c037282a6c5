----------------------------- MODULE BatchProof -----------------------------
(* Collecting and skipping in a batch of any length, endless ones included.  *)
(* Text number k parses to Parsed[k], an element of Good or of Bad.  Over    *)
(* any history of asking, skipping and collecting: nothing is taken that was *)
(* not asked for; a result is that of the next text; collecting gives all    *)
(* that was left, or the first failure, and takes nothing beyond it.         *)
EXTENDS Integers, TLAPS

CONSTANTS Good, Bad, Parsed, Ends, Length
Number == Nat \ {0}
ASSUME Given == /\ Parsed \in [Number -> Good \cup Bad] /\ Good \cap Bad = {}
                /\ Ends \in BOOLEAN /\ Length \in Nat
More(n) == ~Ends \/ n < Length

VARIABLES taken, mode, began, owed, answer
vars == <<taken, mode, began, owed, answer>>

Init == taken = 0 /\ mode = "idle" /\ began = 0 /\ owed = 0 /\ answer = "none"
BeginCollect == /\ mode = "idle" /\ mode' = "collect" /\ began' = taken /\ owed' = 0
                /\ answer' = "none" /\ UNCHANGED taken
\* asking for the next one is skipping none
BeginSkip(n) == /\ mode = "idle" /\ mode' = "skip" /\ began' = taken /\ owed' = n + 1
                /\ answer' = "none" /\ UNCHANGED taken
PullCollect == /\ mode = "collect" /\ More(taken) /\ taken' = taken + 1
               /\ IF Parsed[taken + 1] \in Bad THEN mode' = "over" /\ answer' = "failure"
                  ELSE UNCHANGED <<mode, answer>>
               /\ UNCHANGED <<began, owed>>
PullSkip == /\ mode = "skip" /\ More(taken) /\ taken' = taken + 1 /\ owed' = owed - 1
            /\ IF owed = 1 THEN mode' = "idle" /\ answer' = "one" ELSE UNCHANGED <<mode, answer>>
            /\ UNCHANGED began
Exhausted == /\ mode \in {"collect", "skip"} /\ ~More(taken)
             /\ IF mode = "collect" THEN mode' = "over" /\ answer' = "all" ELSE mode' = "idle" /\ answer' = "end"
             /\ UNCHANGED <<taken, began, owed>>
Next == BeginCollect \/ (\E n \in Nat : BeginSkip(n)) \/ PullCollect \/ PullSkip \/ Exhausted
Spec == Init /\ [][Next]_vars

Inv == /\ taken \in Nat /\ began \in Nat /\ owed \in Nat /\ began <= taken
       /\ mode \in {"idle", "collect", "skip", "over"}
       /\ Ends => taken <= Length
       /\ mode = "skip" => owed > 0
       /\ mode = "collect" => \A k \in Number : k > began /\ k <= taken => Parsed[k] \in Good
       /\ mode = "over" => answer \in {"all", "failure"}
       /\ (mode = "over" /\ answer = "all") =>
             Ends /\ taken = Length /\ \A k \in Number : k > began /\ k <= taken => Parsed[k] \in Good
       /\ (mode = "over" /\ answer = "failure") =>
             /\ taken > began /\ Parsed[taken] \in Bad
             /\ \A k \in Number : k > began /\ k < taken => Parsed[k] \in Good

THEOREM Collects == Spec => []Inv
<1>1. Init => Inv BY Given DEF Init, Inv, Number
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1. CASE BeginCollect BY <2>1, Given DEF BeginCollect, Inv, Number
  <2>2. ASSUME NEW n \in Nat, BeginSkip(n) PROVE Inv' BY <2>2, Given DEF BeginSkip, Inv, Number
  <2>3. CASE PullCollect
    <3>1. taken + 1 \in Number /\ Parsed[taken + 1] \in Good \cup Bad BY <2>3, Given DEF Inv, Number
    <3>2. taken' = taken + 1 /\ (Ends => taken' <= Length) BY <2>3, Given DEF PullCollect, Inv, More
    <3>3. CASE Parsed[taken + 1] \in Bad BY <2>3, <3>1, <3>2, <3>3, Given DEF PullCollect, Inv, Number
    <3>4. CASE Parsed[taken + 1] \notin Bad BY <2>3, <3>1, <3>2, <3>4, Given DEF PullCollect, Inv, Number
    <3> QED BY <3>3, <3>4
  <2>4. CASE PullSkip BY <2>4, Given DEF PullSkip, Inv, Number, More
  <2>5. CASE Exhausted BY <2>5, Given DEF Exhausted, Inv, Number, More
  <2>6. CASE UNCHANGED vars BY <2>6 DEF vars, Inv
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

\* a step takes one text at most, and one is taken only during an operation
THEOREM Lazy == Spec => [][taken' = taken \/ (taken' = taken + 1 /\ mode \in {"collect", "skip"})]_vars
<1>1. [Next]_vars => [taken' = taken \/ (taken' = taken + 1 /\ mode \in {"collect", "skip"})]_vars
  BY DEF Next, BeginCollect, BeginSkip, PullCollect, PullSkip, Exhausted, vars
<1> QED BY <1>1, PTL DEF Spec
=============================================================================
