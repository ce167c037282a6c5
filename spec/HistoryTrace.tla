---------------------------- MODULE HistoryTrace ----------------------------
(* A recorded history is accepted when every event is a History action with   *)
(* the recorded answer.                                                       *)
EXTENDS History, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
tvars == <<hvars, l>>
TraceInit == HInit /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         \/ e.k = "make" /\ Make(e.ev)
         \/ e.k = "giveup" /\ GiveUp(e.ev)
         \/ e.k = "start" /\ Start(e.th, [ev |-> e.ev, cards |-> e.cards])
         \/ e.k = "finish" /\ Finish(e.th, e.out)
         \/ e.k = "abandon" /\ Abandon(e.th)
         \/ e.k = "ending" /\ Ending(e.th)
         \/ e.k = "gone" /\ Leave(e.th)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
    LET n == TLCGet("stats").diameter - 1 IN
    \/ n = Len(Trace)
    \/ PrintT(<<"REJECTED", n + 1, ToJson(Trace[n + 1])>>) /\ FALSE
=============================================================================
