----------------------------- MODULE JacksTrace -----------------------------
(* A recorded game is accepted when every line typed and everything shown in  *)
(* answer is a step of Jacks.  Several games may follow each other.  IOEnv.PROP picks the fields that are compared. *)
EXTENDS Jacks, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l,
          deals, shown     \* first hands dealt since the start of the game; the cards in them
tvars == <<jvars, l, deals, shown>>

Fields == CASE IOEnv.PROP = "C18" -> {"hand", "name", "marks", "hand2", "name2", "remark"}
            [] IOEnv.PROP = "C19" -> {"credits", "max", "winnings", "gameover", "ended", "exit"}
            [] IOEnv.PROP = "C20" -> {"says", "ask", "credits", "ended", "exit"}
            [] OTHER -> {"hand", "name", "marks", "hand2", "name2", "remark", "credits", "max", "winnings", "gameover", "says", "ask", "ended", "exit"}
(* what was seen (e) is what the specification shows (x); says is a set of    *)
(* alternatives                                                               *)
Sees(e, x) ==
    /\ DOMAIN e \cap Fields = DOMAIN x \cap Fields
    /\ \A f \in DOMAIN x \cap Fields : IF f = "says" THEN e[f] \in x[f] ELSE e[f] = x[f]
Known(names) == \A i \in DOMAIN names : names[i] \in CardNames
HandIn(e, f) == IF f \in DOMAIN e /\ Known(e[f]) THEN CardsOf(e[f]) ELSE <<>>

Lines1(m) == {<<t>> : t \in m}
TypedLine(e) ==
    \/ RefusedAtWager(e.text) /\ Sees(e, SeenRefused @@ [says |-> Lines1(WagerSays(e.text, credits).says)])
    \/ RefusedAtSwap(e.text) /\ Sees(e, SeenRefused @@ [says |-> Lines1(SwapSays(e.text).says)])
    \/ LET h == HandIn(e, "hand") IN Bet(e.text, h) /\ Sees(e, SeenBet(h))
    \/ LET h == HandIn(e, "hand2") IN Finish(e.text, h) /\ Sees(e, SeenFinish(h, credits'))
    \/ Leave(e.text) /\ Sees(e, SeenLeave)

TraceInit == JInit /\ l = 1 /\ deals = 0 /\ shown = {}
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         \/ e.k = "start" /\ (l = 1 \/ phase = "over") /\ Sees(e, SeenAtStart)
            /\ phase' = "wager" /\ credits' = StartCredits /\ wager' = 0 /\ hand' = <<>>
         \/ e.k = "line" /\ TypedLine(e)
         \/ e.k = "eof" /\ EndOfInput /\ Sees(e, SeenLeave)
    /\ l' = l + 1
    /\ IF Trace[l].k = "start" THEN deals' = 0 /\ shown' = {}
       ELSE IF phase = "wager" /\ phase' = "swap" THEN deals' = deals + 1 /\ shown' = shown \cup Range(hand')
       ELSE UNCHANGED <<deals, shown>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
(* No card is lost: one that never comes in 400 deals is gone (with an intact *)
(* deck this fails once in 10^16 games).                                      *)
EveryCardComes == deals >= 400 => shown = Cards
CreditsNeverNegative == credits >= 0
TraceAccepted ==
    LET n == TLCGet("stats").diameter - 1 IN
    \/ n = Len(Trace)
    \/ PrintT(<<"REJECTED", n + 1, ToJson(Trace[n + 1])>>) /\ FALSE
=============================================================================
