------------------------------ MODULE HeldTrace ------------------------------
(* What was really held, looked at between calls, is what Held allows.        *)
EXTENDS Held, Sequences, TLC, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
tvars == <<hvars, l>>
TraceInit == HInit /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                  \/ e.op = "calls" /\ Calls(e.kind)
                  \/ e.op = "look" /\ Look(e.out)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
    LET n == TLCGet("stats").diameter - 1 IN
    \/ n = Len(Trace)
    \/ PrintT(<<"REJECTED", n + 1, ToJson(Trace[n + 1])>>) /\ FALSE
=============================================================================
