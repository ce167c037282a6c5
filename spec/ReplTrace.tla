----------------------------- MODULE ReplTrace -----------------------------
(* A recorded session of the evaluation prompt: the lines typed and, apart,   *)
(* everything shown.  Accepted when the shown lines are exactly the answers   *)
(* to the typed ones, in order, and the prompt ends when it should.           *)
EXTENDS Repl, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Shown == TLCEval(ndJsonDeserialize(IOEnv.SHOWN)[1].lines)
VARIABLES l, at           \* the next event, the next line shown
tvars == <<libvars, rvars, l, at>>
Part(n) == SubSeq(Shown, at, at + n - 1)
Left == Len(Shown) - at + 1

TraceInit == LibInit /\ RInit /\ l = 1 /\ at = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ UNCHANGED libvars
    /\ LET e == Trace[l] IN
         \/ /\ e.k = "start" /\ l = 1 /\ Left >= 2 /\ Part(2) = Greeting
            /\ at' = at + 2 /\ UNCHANGED rvars
         \/ /\ e.k = "line" /\ ~IsText(e.text, "quit")
            /\ Left >= Height(e.text)
            /\ Answer(e.text, Part(Height(e.text)))
            /\ at' = at + Height(e.text)
         \/ e.k = "line" /\ Stop(e.text) /\ UNCHANGED at
         \* input ends, or had ended the prompt before
         \/ /\ e.k = "end" /\ Left = 0 /\ e.exit = 0
            /\ IF open THEN NoMoreInput ELSE UNCHANGED rvars
            /\ UNCHANGED at
         \* lines after "quit" are not read
         \/ e.k = "line" /\ ~open /\ UNCHANGED <<rvars, at>>
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
    LET n == TLCGet("stats").diameter - 1 IN
    \/ n = Len(Trace)
    \/ PrintT(<<"REJECTED", n + 1, ToJson(Trace[n + 1])>>) /\ FALSE
=============================================================================
