-------------------------- MODULE SurroundingsTrace --------------------------
(* What programs in different surroundings were really told, one after       *)
(* another, is what Surroundings allows.                                     *)
EXTENDS Surroundings, Sequences, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
tvars == <<avars, l>>
TraceInit == AInit /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                  \/ e.op = "enter" /\ Enter(e.surroundings)
                  \/ e.op = "calls" /\ Answered(e.of, e.out, e.asked)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
    LET n == TLCGet("stats").diameter - 1 IN
    \/ n = Len(Trace)
    \/ PrintT(<<"REJECTED", n + 1, ToJson(Trace[n + 1])>>) /\ FALSE
=============================================================================
