------------------------------ MODULE Sharing ------------------------------
(* Threads sharing evaluators: the exhaustive configuration of History.      *)
(* Every interleaving of starts and finishes of a few calls by a few threads,*)
(* with evaluators made and given up in between.  Here a call's answer is    *)
(* the sequential one of PokerLib; TLC checks that no interleaving can give  *)
(* a thread a different answer, that the memo ends up single-valued, and     *)
(* that no thread is ever blocked by another (a started call can always      *)
(* finish).  A second behaviour, switched on by Racy, evaluates in two steps *)
(* through a scratch area shared by the threads of one evaluator: TLC finds  *)
(* the interleaving that breaks it (checked by the driver as a negative      *)
(* control: the model can tell the difference).                              *)
EXTENDS History

CONSTANTS Threads, EvIds, Inputs, MostCalls, Racy

VARIABLES scratch, told      \* told: thread -> answers it got, newest last
svars == <<hvars, scratch, told>>

Lib == INSTANCE PokerLib WITH evs <- <<>>, evals <- <<>>, iters <- <<>>,
                              decks <- <<>>, order <- <<>>, shuf <- <<>>
Answer(cards) == Lib!EvalOut(CardsOf(cards))
InputSeqs == {
    <<"Ac", "Kc", "Qc", "Jc", "Tc">>, <<"Tc", "Jc", "Qc", "Kc", "Ac">>,
    <<"2c", "2d", "3h", "4s", "9c">>, <<"2c", "2d", "3h">>, <<"2c", "2c", "3h", "4s", "9c">> }
Used == IF Inputs = 5 THEN InputSeqs
        ELSE {<<"Ac", "Kc", "Qc", "Jc", "Tc">>, <<"Tc", "Jc", "Qc", "Kc", "Ac">>, <<"2c", "2d", "3h">>}

Alike == Permutations(Threads) \cup Permutations(EvIds)

SInit == HInit /\ scratch = <<>> /\ told = [t \in Threads |-> 0]
SMake == \E id \in EvIds : Make(id) /\ UNCHANGED <<scratch, told>>
SGiveUp == \E id \in EvIds : GiveUp(id) /\ UNCHANGED <<scratch, told>>
SStart == \E t \in Threads, id \in EvIds, q \in Used :
            /\ told[t] + Len(Calls(t)) < MostCalls
            /\ Start(t, [ev |-> id, cards |-> q])
            /\ scratch' = IF Racy THEN PutH(scratch, id, q) ELSE scratch
            /\ UNCHANGED told
Given(t) == LET e == Innermost(t) IN IF Racy THEN Answer(scratch[e.ev]) ELSE Answer(e.cards)
SFinish == \E t \in DOMAIN busy :
            /\ LET e == Innermost(t) IN Key(e) \in DOMAIN memo => memo[Key(e)] = Given(t)     \* the History guard
            /\ Finish(t, Given(t))
            /\ told' = [told EXCEPT ![t] = @ + 1]
            /\ UNCHANGED scratch
SAbandon == \E t \in DOMAIN busy : Abandon(t) /\ told' = [told EXCEPT ![t] = @ + 1] /\ UNCHANGED scratch
SEnd == \E t \in Threads : (Ending(t) \/ Leave(t)) /\ UNCHANGED <<scratch, told>>
SNext == SMake \/ SGiveUp \/ SStart \/ SFinish \/ SAbandon \/ SEnd
SSpec == SInit /\ [][SNext]_svars /\ WF_svars(SFinish)

\* every remembered answer is the sequential one
AnswersAreSequential ==
    \A k \in DOMAIN memo :
        IF k[1] = "seq" THEN memo[k] = Answer(k[2])
        ELSE memo[k] = Answer(NamesOf(SetToSeq(k[2])))
CallsOnLiveEvaluators == \A t \in DOMAIN busy : \A i \in DOMAIN busy[t] : busy[t][i].ev \in live
\* no thread waits for another, nor for its own outer calls: any innermost
\* call can finish now
NeverBlocked == \A t \in DOMAIN busy :
    LET e == Innermost(t) IN Key(e) \in DOMAIN memo => memo[Key(e)] = Given(t)
=============================================================================
