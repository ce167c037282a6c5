------------------------------- MODULE HeldMC -------------------------------
(* A user of the library: calls in two threads, results kept and dropped,    *)
(* calls that fail half-way, threads that end.  Memory is counted in units.  *)
(* With Remembers (a cache of answers, say) the looks must go wrong.         *)
EXTENDS Held, FiniteSets

CONSTANTS Threads, MostCalls, MostKept, Remembers
Kinds == {"evaluate", "make", "shuffle"}
Once == [k \in Kinds |-> IF k = "shuffle" THEN 2 ELSE 0]   \* set up once
Size == [k \in Kinds |-> CASE k = "evaluate" -> 0 [] k = "make" -> 3 [] k = "shuffle" -> 1]
Needs == 1                                                  \* while in progress
Stack == 2                                                  \* of a thread
VARIABLES kept, doing, live, calls
mvars == <<hvars, kept, doing, live, calls>>

Main == CHOOSE t \in Threads : TRUE
Alive == {t \in Threads : doing[t] # "gone"}
MInit == /\ HInit /\ kept = [k \in Kinds |-> 0] /\ live = 0 /\ calls = 0
         /\ doing = [t \in Threads |-> IF t = Main THEN "nothing" ELSE "gone"]
Begin(t, k) == /\ doing[t] = "nothing" /\ calls < MostCalls /\ calls' = calls + 1
               /\ doing' = [doing EXCEPT ![t] = k] /\ Calls(k)
               /\ live' = live + Needs + IF k \in known THEN 0 ELSE Once[k]
               /\ UNCHANGED kept
Finish(t) == /\ doing[t] \in Kinds /\ kept[doing[t]] < MostKept
             /\ kept' = [kept EXCEPT ![doing[t]] = @ + 1] /\ doing' = [doing EXCEPT ![t] = "nothing"]
             /\ live' = live - Needs + Size[doing[t]] + IF Remembers /\ doing[t] = "evaluate" THEN 1 ELSE 0
             /\ UNCHANGED <<hvars, calls>>
Fail(t) == /\ doing[t] \in Kinds /\ doing' = [doing EXCEPT ![t] = "nothing"] /\ live' = live - Needs
           /\ UNCHANGED <<hvars, kept, calls>>
Drop(k) == /\ kept[k] > 0 /\ kept' = [kept EXCEPT ![k] = @ - 1] /\ live' = live - Size[k]
           /\ UNCHANGED <<hvars, doing, calls>>
Spawn(t) == /\ doing[t] = "gone" /\ doing' = [doing EXCEPT ![t] = "nothing"] /\ live' = live + Stack
            /\ UNCHANGED <<hvars, kept, calls>>
Ends(t) == /\ t # Main /\ doing[t] = "nothing" /\ doing' = [doing EXCEPT ![t] = "gone"] /\ live' = live - Stack
           /\ UNCHANGED <<hvars, kept, calls>>
Idle == Alive = {Main} /\ doing[Main] = "nothing" /\ \A k \in Kinds : kept[k] = 0
Measure == [memory |-> live, threads |-> Cardinality(Alive), files |-> 0, written |-> 0]
Looks == Idle /\ Look(Measure) /\ UNCHANGED <<kept, doing, live, calls>>

MNext == \/ \E t \in Threads : Finish(t) \/ Fail(t) \/ Spawn(t) \/ Ends(t) \/ \E k \in Kinds : Begin(t, k)
         \/ \E k \in Kinds : Drop(k)
         \/ Looks
MSpec == MInit /\ [][MNext]_mvars

\* a look is always allowed, and what is held is accounted for
GivenBack == Idle => Allowed(Measure)
Sum(f) == f["evaluate"] + f["make"] + f["shuffle"]
Accounted == live = Sum([k \in Kinds |-> kept[k] * Size[k]]) + Sum([k \in Kinds |-> IF k \in known THEN Once[k] ELSE 0])
                    + Needs * Cardinality({t \in Threads : doing[t] \in Kinds}) + Stack * (Cardinality(Alive) - 1)
=============================================================================
