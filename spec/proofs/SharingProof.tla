---------------------------- MODULE SharingProof ----------------------------
(* History for any number of threads, evaluators and inputs, with calls      *)
(* nested to any depth, abandoned calls, and threads that end: if a call     *)
(* gives the sequential answer to its input, and inputs with the same key    *)
(* have the same answer, then no history contains two answers for one key,   *)
(* every remembered answer is the sequential one, no innermost call is ever  *)
(* kept from finishing by what others did, calls are made on live            *)
(* evaluators only, and a thread that is gone makes none.                    *)
EXTENDS Integers, Sequences, TLAPS

CONSTANTS Threads, Evs, Inputs, Outs, Keys, KeyOf, AnswerOf, Nothing
ASSUME Given == /\ Nothing \notin Outs /\ KeyOf \in [Inputs -> Keys] /\ AnswerOf \in [Inputs -> Outs]
                /\ \A a, b \in Inputs : KeyOf[a] = KeyOf[b] => AnswerOf[a] = AnswerOf[b]
Call == [ev : Evs, cards : Inputs]

VARIABLES memo, busy, live, fate
vars == <<memo, busy, live, fate>>

Init == /\ memo = [k \in Keys |-> Nothing] /\ busy = [t \in Threads |-> <<>>]
        /\ live = {} /\ fate = [t \in Threads |-> "runs"]
Make(id) == id \notin live /\ live' = live \cup {id} /\ UNCHANGED <<memo, busy, fate>>
GiveUp(id) == /\ id \in live
              /\ \A t \in Threads : \A i \in 1..Len(busy[t]) : busy[t][i].ev # id
              /\ live' = live \ {id} /\ UNCHANGED <<memo, busy, fate>>
Start(t, e) == /\ fate[t] # "gone" /\ e.ev \in live
               /\ busy' = [busy EXCEPT ![t] = Append(@, e)] /\ UNCHANGED <<memo, live, fate>>
Innermost(t) == busy[t][Len(busy[t])]
Pop(t) == busy' = [busy EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
\* what a finished call may answer, by History
Allowed(t, out) == memo[KeyOf[Innermost(t).cards]] # Nothing => memo[KeyOf[Innermost(t).cards]] = out
Finish(t) == /\ busy[t] # <<>>
             /\ LET out == AnswerOf[Innermost(t).cards] IN
                  Allowed(t, out) /\ memo' = [memo EXCEPT ![KeyOf[Innermost(t).cards]] = out]
             /\ Pop(t) /\ UNCHANGED <<live, fate>>
Abandon(t) == busy[t] # <<>> /\ Pop(t) /\ UNCHANGED <<memo, live, fate>>
Ending(t) == fate[t] = "runs" /\ busy[t] = <<>> /\ fate' = [fate EXCEPT ![t] = "ending"] /\ UNCHANGED <<memo, busy, live>>
Leave(t) == fate[t] = "ending" /\ busy[t] = <<>> /\ fate' = [fate EXCEPT ![t] = "gone"] /\ UNCHANGED <<memo, busy, live>>
Next == \/ \E id \in Evs : Make(id) \/ GiveUp(id)
        \/ \E t \in Threads : \/ \E e \in Call : Start(t, e)
                              \/ Finish(t) \/ Abandon(t) \/ Ending(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars

Inv == /\ memo \in [Keys -> Outs \cup {Nothing}]
       /\ busy \in [Threads -> Seq(Call)] /\ live \subseteq Evs
       /\ fate \in [Threads -> {"runs", "ending", "gone"}]
       /\ \A a \in Inputs : memo[KeyOf[a]] \in {Nothing, AnswerOf[a]}
       /\ \A t \in Threads : \A i \in 1..Len(busy[t]) : busy[t][i].ev \in live
       /\ \A t \in Threads : fate[t] = "gone" => busy[t] = <<>>
NeverBlocked == \A t \in Threads : busy[t] # <<>> => Allowed(t, AnswerOf[Innermost(t).cards])

LEMMA Popped == ASSUME NEW s \in Seq(Call), s # <<>>
                PROVE /\ Len(s) \in 1..Len(s) /\ s[Len(s)] \in Call
                      /\ SubSeq(s, 1, Len(s) - 1) \in Seq(Call)
                      /\ Len(SubSeq(s, 1, Len(s) - 1)) = Len(s) - 1
                      /\ \A i \in 1..(Len(s) - 1) : SubSeq(s, 1, Len(s) - 1)[i] = s[i]
  OBVIOUS

LEMMA Pushed == ASSUME NEW s \in Seq(Call), NEW e \in Call
                PROVE /\ Append(s, e) \in Seq(Call) /\ Len(Append(s, e)) = Len(s) + 1
                      /\ \A i \in 1..Len(s) : Append(s, e)[i] = s[i]
                      /\ Append(s, e)[Len(s) + 1] = e
  OBVIOUS

LEMMA PopKeeps == ASSUME NEW t \in Threads, Inv, busy[t] # <<>>, Pop(t)
                 PROVE /\ busy' \in [Threads -> Seq(Call)]
                       /\ \A u \in Threads : u # t => busy'[u] = busy[u]
                       /\ \A u \in Threads : \A i \in 1..Len(busy'[u]) :
                             i \in 1..Len(busy[u]) /\ busy'[u][i] = busy[u][i]
<1>1. busy[t] \in Seq(Call) BY DEF Inv
<1>2. busy'[t] = SubSeq(busy[t], 1, Len(busy[t]) - 1) /\ (\A u \in Threads : u # t => busy'[u] = busy[u])
  BY DEF Pop, Inv
<1>3. busy'[t] \in Seq(Call) /\ Len(busy'[t]) = Len(busy[t]) - 1
      /\ \A i \in 1..(Len(busy[t]) - 1) : busy'[t][i] = busy[t][i]
  BY <1>1, <1>2, Popped
<1>4. busy' \in [Threads -> Seq(Call)] BY <1>3 DEF Pop, Inv
<1>5. Len(busy[t]) \in Nat BY <1>1
<1> QED BY <1>2, <1>3, <1>4, <1>5

THEOREM OneAnswer == Spec => []Inv
<1>1. Init => Inv BY Given DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1. ASSUME NEW id \in Evs, Make(id) PROVE Inv' BY <2>1 DEF Make, Inv
  <2>2. ASSUME NEW id \in Evs, GiveUp(id) PROVE Inv' BY <2>2 DEF GiveUp, Inv
  <2>3. ASSUME NEW t \in Threads, NEW e \in Call, Start(t, e) PROVE Inv'
    <3>1. busy[t] \in Seq(Call) BY DEF Inv
    <3>2. busy'[t] = Append(busy[t], e) /\ (\A u \in Threads : u # t => busy'[u] = busy[u])
      BY <2>3 DEF Start, Inv
    <3>3. /\ busy'[t] \in Seq(Call) /\ Len(busy'[t]) = Len(busy[t]) + 1
          /\ \A i \in 1..Len(busy[t]) : busy'[t][i] = busy[t][i]
          /\ busy'[t][Len(busy[t]) + 1] = e
      BY <3>1, <3>2, Pushed
    <3>4. busy' \in [Threads -> Seq(Call)] BY <2>3, <3>2, <3>3 DEF Start, Inv
    <3>5. Len(busy[t]) \in Nat BY <3>1
    <3>6. \A i \in 1..Len(busy'[t]) : busy'[t][i].ev \in live
      <4> TAKE i \in 1..Len(busy'[t])
      <4>1. CASE i = Len(busy[t]) + 1 BY <4>1, <3>3, <2>3 DEF Start
      <4>2. CASE i # Len(busy[t]) + 1
        <5>1. i \in 1..Len(busy[t]) BY <4>2, <3>3, <3>5
        <5> QED BY <5>1, <3>3 DEF Inv
      <4> QED BY <4>1, <4>2
    <3>7. UNCHANGED <<memo, live, fate>> /\ fate[t] # "gone" BY <2>3 DEF Start
    <3>8. \A u \in Threads : \A i \in 1..Len(busy'[u]) : busy'[u][i].ev \in live' BY <3>2, <3>6, <3>7 DEF Inv
    <3>9. \A u \in Threads : fate'[u] = "gone" => busy'[u] = <<>> BY <3>2, <3>7 DEF Inv
    <3> QED BY <3>4, <3>7, <3>8, <3>9 DEF Inv
  <2>4. ASSUME NEW t \in Threads, busy[t] # <<>>, Pop(t), UNCHANGED <<live, fate>>,
               memo' \in [Keys -> Outs \cup {Nothing}],
               \A a \in Inputs : memo'[KeyOf[a]] \in {Nothing, AnswerOf[a]}
        PROVE Inv'
    <3>1. fate[t] # "gone" BY <2>4 DEF Inv
    <3>2. /\ busy' \in [Threads -> Seq(Call)]
          /\ \A u \in Threads : u # t => busy'[u] = busy[u]
          /\ \A u \in Threads : \A i \in 1..Len(busy'[u]) :
                i \in 1..Len(busy[u]) /\ busy'[u][i] = busy[u][i]
      BY <2>4, PopKeeps
    <3>3. \A u \in Threads : \A i \in 1..Len(busy'[u]) : busy'[u][i].ev \in live' BY <2>4, <3>2 DEF Inv
    <3>4. \A u \in Threads : fate'[u] = "gone" => busy'[u] = <<>> BY <2>4, <3>1, <3>2 DEF Inv
    <3> QED BY <2>4, <3>2, <3>3, <3>4 DEF Inv
  <2>5. ASSUME NEW t \in Threads, Finish(t) PROVE Inv'
    <3>1. busy[t] \in Seq(Call) /\ busy[t] # <<>> BY <2>5 DEF Finish, Inv
    <3>2. Innermost(t) \in Call BY <3>1, Popped DEF Innermost
    <3> DEFINE c == Innermost(t).cards
    <3>3. c \in Inputs /\ KeyOf[c] \in Keys /\ AnswerOf[c] \in Outs BY <3>2, Given DEF Call
    <3>4. memo' = [memo EXCEPT ![KeyOf[c]] = AnswerOf[c]] BY <2>5 DEF Finish
    <3>5. memo' \in [Keys -> Outs \cup {Nothing}] BY <3>3, <3>4 DEF Inv
    <3>6. \A a \in Inputs : memo'[KeyOf[a]] \in {Nothing, AnswerOf[a]}
      <4> TAKE a \in Inputs
      <4>0. KeyOf[a] \in Keys BY Given
      <4>1. CASE KeyOf[a] = KeyOf[c]
        <5>1. AnswerOf[a] = AnswerOf[c] BY <4>1, <3>3, Given
        <5>2. memo'[KeyOf[a]] = AnswerOf[c] BY <4>1, <3>3, <3>4 DEF Inv
        <5> QED BY <5>1, <5>2
      <4>2. CASE KeyOf[a] # KeyOf[c]
        <5>1. memo'[KeyOf[a]] = memo[KeyOf[a]] BY <4>0, <4>2, <3>3, <3>4 DEF Inv
        <5> QED BY <5>1 DEF Inv
      <4> QED BY <4>1, <4>2
    <3>7. Pop(t) /\ UNCHANGED <<live, fate>> BY <2>5 DEF Finish
    <3> QED BY <2>4, <3>1, <3>5, <3>6, <3>7
  <2>6. ASSUME NEW t \in Threads, Abandon(t) PROVE Inv'
    <3>1. busy[t] # <<>> /\ Pop(t) /\ UNCHANGED <<memo, live, fate>> BY <2>6 DEF Abandon
    <3>2. memo' \in [Keys -> Outs \cup {Nothing}] /\ \A a \in Inputs : memo'[KeyOf[a]] \in {Nothing, AnswerOf[a]}
      BY <3>1 DEF Inv
    <3> QED BY <2>4, <3>1, <3>2
  <2>7. ASSUME NEW t \in Threads, Ending(t) PROVE Inv' BY <2>7 DEF Ending, Inv
  <2>8. ASSUME NEW t \in Threads, Leave(t) PROVE Inv' BY <2>8 DEF Leave, Inv
  <2>9. CASE UNCHANGED vars BY <2>9 DEF vars, Inv
  <2> QED BY <2>1, <2>2, <2>3, <2>5, <2>6, <2>7, <2>8, <2>9 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

THEOREM Spec => []NeverBlocked
<1>1. Inv => NeverBlocked
  <2> SUFFICES ASSUME Inv, NEW t \in Threads, busy[t] # <<>> PROVE Allowed(t, AnswerOf[Innermost(t).cards])
    BY DEF NeverBlocked
  <2>1. busy[t] \in Seq(Call) BY DEF Inv
  <2>2. Innermost(t).cards \in Inputs BY <2>1, Popped DEF Innermost, Call
  <2> QED BY <2>2 DEF Inv, Allowed
<1> QED BY <1>1, OneAnswer, PTL
=============================================================================
