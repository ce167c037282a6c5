--------------------------- MODULE PokerLibTrace ---------------------------
(* A recorded session of calls to the real library is accepted when every    *)
(* call is an action of PokerLib with the recorded result.                   *)
EXTENDS PokerLib, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
tvars == <<libvars, l>>

TraceInit == LibInit /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                  /\ Allowed(e, e.out)
                  /\ Call(e, e.out)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceAccepted ==
    LET n == TLCGet("stats").diameter - 1 IN
    \/ n = Len(Trace)
    \/ /\ PrintT(<<"REJECTED", n + 1, ToJson(Trace[n + 1])>>)
       /\ FALSE
=============================================================================
