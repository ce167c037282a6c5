----------------------------- MODULE ParserProof ----------------------------
(* Parser for texts of any length over any characters: the verdict is the    *)
(* declared one, at most three characters are looked at, and what was looked *)
(* at decides: two texts that agree on the first three characters, and on    *)
(* their length up to three, get the same verdict.                           *)
EXTENDS Integers, Sequences, TLAPS

CONSTANTS Chars, RankChars, SuitChars

Declared(s) == IF Len(s) # 2 THEN [t |-> "length"]
               ELSE IF s[1] \notin RankChars THEN [t |-> "rank", bad |-> s[1]]
               ELSE IF s[2] \notin SuitChars THEN [t |-> "suit", bad |-> s[2]]
               ELSE [t |-> "card", rank |-> s[1], suit |-> s[2]]

VARIABLES text, pos, took, verdict
vars == <<text, pos, took, verdict>>
None == [t |-> "none"]

Init == text \in Seq(Chars) /\ pos = 0 /\ took = <<>> /\ verdict = None
TakeChar == /\ verdict = None /\ pos < 3 /\ pos < Len(text)
            /\ took' = Append(took, text[pos + 1]) /\ pos' = pos + 1
            /\ UNCHANGED <<text, verdict>>
TooLongOrShort == /\ verdict = None /\ (pos = 3 \/ (pos = Len(text) /\ pos < 2))
                  /\ verdict' = [t |-> "length"] /\ UNCHANGED <<text, pos, took>>
BadRank == /\ verdict = None /\ pos = 2 /\ Len(text) = 2 /\ took[1] \notin RankChars
           /\ verdict' = [t |-> "rank", bad |-> took[1]] /\ UNCHANGED <<text, pos, took>>
BadSuit == /\ verdict = None /\ pos = 2 /\ Len(text) = 2
           /\ took[1] \in RankChars /\ took[2] \notin SuitChars
           /\ verdict' = [t |-> "suit", bad |-> took[2]] /\ UNCHANGED <<text, pos, took>>
Accept == /\ verdict = None /\ pos = 2 /\ Len(text) = 2
          /\ took[1] \in RankChars /\ took[2] \in SuitChars
          /\ verdict' = [t |-> "card", rank |-> took[1], suit |-> took[2]] /\ UNCHANGED <<text, pos, took>>
Next == TakeChar \/ TooLongOrShort \/ BadRank \/ BadSuit \/ Accept
Spec == Init /\ [][Next]_vars

Inv == /\ text \in Seq(Chars) /\ pos \in 0..3 /\ pos <= Len(text)
       /\ took \in Seq(Chars) /\ Len(took) = pos /\ \A i \in 1..pos : took[i] = text[i]
       /\ verdict # None => verdict = Declared(text)
\* as long as there is no verdict, something can be done about it
NeverStuck == verdict = None => \/ pos < 3 /\ pos < Len(text)
                                \/ pos = 3 \/ (pos = Len(text) /\ pos < 2)
                                \/ pos = 2 /\ Len(text) = 2

THEOREM AsDeclared == Spec => []Inv
<1>1. Init => Inv BY DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>0. Len(text) \in Nat /\ Len(took) \in Nat BY DEF Inv
  <2>1. CASE TakeChar
    <3>1. text[pos + 1] \in Chars BY <2>0, <2>1 DEF TakeChar, Inv
    <3>2. took' \in Seq(Chars) /\ Len(took') = pos + 1 /\ took'[pos + 1] = text[pos + 1]
          /\ \A i \in 1..pos : took'[i] = took[i]
      BY <2>0, <2>1, <3>1 DEF TakeChar, Inv
    <3>3. \A i \in 1..(pos + 1) : took'[i] = text[i]
      <4> TAKE i \in 1..(pos + 1)
      <4> QED BY <3>2 DEF Inv
    <3> QED BY <2>0, <2>1, <3>2, <3>3 DEF TakeChar, Inv
  <2>2. CASE TooLongOrShort BY <2>0, <2>2 DEF TooLongOrShort, Inv, Declared
  <2>3. CASE BadRank BY <2>0, <2>3 DEF BadRank, Inv, Declared
  <2>4. CASE BadSuit BY <2>0, <2>4 DEF BadSuit, Inv, Declared
  <2>5. CASE Accept BY <2>0, <2>5 DEF Accept, Inv, Declared
  <2>6. CASE UNCHANGED vars BY <2>6 DEF vars, Inv
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

THEOREM Spec => []NeverStuck
<1>1. Inv => NeverStuck BY DEF Inv, NeverStuck
<1> QED BY <1>1, AsDeclared, PTL

THEOREM ASSUME NEW a \in Seq(Chars), NEW b \in Seq(Chars),
               \A i \in 1..3 : (i \in 1..Len(a) <=> i \in 1..Len(b)) /\ (i \in 1..Len(a) => a[i] = b[i])
        PROVE Declared(a) = Declared(b)
<1>0. Len(a) \in Nat /\ Len(b) \in Nat OBVIOUS
<1>1. Len(a) = 2 <=> Len(b) = 2
  <2>1. 2 \in 1..Len(a) <=> 2 \in 1..Len(b) OBVIOUS
  <2>2. 3 \in 1..Len(a) <=> 3 \in 1..Len(b) OBVIOUS
  <2> QED BY <1>0, <2>1, <2>2
<1>2. Len(a) = 2 => a[1] = b[1] /\ a[2] = b[2] OBVIOUS
<1> QED BY <1>1, <1>2 DEF Declared
=============================================================================
