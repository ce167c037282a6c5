------------------------------ MODULE History ------------------------------
(* What "depends only on the set of cards" means over a whole history of     *)
(* calls, without saying which answer is the right one: the first answer for *)
(* a set of cards fixes the answer of every later call with that set - in    *)
(* another order, another container, on another evaluator, by another        *)
(* thread, or through another way of evaluating.  Errors carry the input, so *)
(* for refused inputs the answer is fixed per sequence of cards.             *)
(*                                                                           *)
(* A call has a start and an end; between the two, other threads may start   *)
(* and end theirs, and evaluators may be made and given up.  The caller's own *)
(* container is asked for its cards within a call: it may call in turn, so    *)
(* each thread has a stack of calls, and it may fail: the call is then        *)
(* abandoned, without an answer and without a trace.  A thread that ends      *)
(* drops the values kept for it, and these may call too, until it is gone.    *)
EXTENDS Cards

VARIABLES memo,      \* key of an input -> the answer to it
          busy,      \* thread -> the calls it is in the middle of, innermost last
          live,      \* evaluators that exist
          fate       \* thread -> "ending" or "gone"; others run
hvars == <<memo, busy, live, fate>>

HInit == memo = <<>> /\ busy = <<>> /\ live = {} /\ fate = <<>>

\* accepted inputs by their set of cards, refused ones by their sequence
Key(e) == IF AllDistinct(e.cards) THEN <<"set", {CardOfName[e.cards[i]] : i \in DOMAIN e.cards}>>
          ELSE <<"seq", e.cards>>
PutH(m, k, v) == (k :> v) @@ m
Calls(t) == IF t \in DOMAIN busy THEN busy[t] ELSE <<>>
Innermost(t) == busy[t][Len(busy[t])]
Gone(t) == t \in DOMAIN fate /\ fate[t] = "gone"

Make(id) == id \notin live /\ live' = live \cup {id} /\ UNCHANGED <<memo, busy, fate>>
\* giving an evaluator up waits for the calls on it
GiveUp(id) == /\ id \in live
              /\ \A t \in DOMAIN busy : \A i \in DOMAIN busy[t] : busy[t][i].ev # id
              /\ live' = live \ {id} /\ UNCHANGED <<memo, busy, fate>>
\* within a call, or not
Start(t, e) == /\ ~ Gone(t)
               /\ e.ev \in live
               /\ busy' = PutH(busy, t, Append(Calls(t), e)) /\ UNCHANGED <<memo, live, fate>>
Pop(t) == busy' = IF Len(busy[t]) = 1 THEN [u \in DOMAIN busy \ {t} |-> busy[u]]
                  ELSE [busy EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Finish(t, out) ==
    /\ t \in DOMAIN busy
    /\ LET k == Key(Innermost(t)) IN
         /\ k \in DOMAIN memo => memo[k] = out
         /\ memo' = PutH(memo, k, out)
    /\ Pop(t)
    /\ UNCHANGED <<live, fate>>
\* the container of the innermost call failed
Abandon(t) == t \in DOMAIN busy /\ Pop(t) /\ UNCHANGED <<memo, live, fate>>
\* a thread returns, drops the values kept for it, and is gone
Ending(t) == t \notin DOMAIN fate /\ t \notin DOMAIN busy /\ fate' = PutH(fate, t, "ending") /\ UNCHANGED <<memo, busy, live>>
Leave(t) == t \in DOMAIN fate /\ fate[t] = "ending" /\ t \notin DOMAIN busy /\ fate' = PutH(fate, t, "gone") /\ UNCHANGED <<memo, busy, live>>

\* answers that no history of a working library contains
Sane(out) == out.t # "panic"
HInv == /\ \A k \in DOMAIN memo : Sane(memo[k])
        /\ \A t \in DOMAIN busy : busy[t] # <<>> /\ ~ Gone(t)
=============================================================================
