------------------------------- MODULE Parser -------------------------------
(* Parsing one text, character by character, the way an implementation has   *)
(* to do it: take three characters at most, insist on exactly two, then look *)
(* at the first, then at the second.  TLC runs it on every text up to        *)
(* MaxLen over an alphabet with representatives of every kind of character   *)
(* and checks it against the declarative ParseOut of PokerLib.               *)
EXTENDS Cards, Json, IOUtils

CONSTANTS Alphabet, MaxLen

Lib == INSTANCE PokerLib WITH evs <- <<>>, evals <- <<>>, iters <- <<>>,
                              decks <- <<>>, order <- <<>>, shuf <- <<>>

VARIABLES text, pos, took, verdict
vars == <<text, pos, took, verdict>>

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == text \in Texts /\ pos = 0 /\ took = <<>> /\ verdict = [t |-> "none"]

\* take the next character (or find the end), three times at most
TakeChar == /\ verdict.t = "none" /\ pos < 3 /\ pos < Len(text)
            /\ took' = Append(took, text[pos + 1])
            /\ pos' = pos + 1
            /\ UNCHANGED <<text, verdict>>
TooLongOrShort == /\ verdict.t = "none"
                  /\ (pos = 3 \/ (pos = Len(text) /\ pos < 2))
                  /\ verdict' = [t |-> "length", input |-> Lib!Text(text)]
                  /\ UNCHANGED <<text, pos, took>>
BadRank == /\ verdict.t = "none" /\ pos = 2 /\ Len(text) = 2
           /\ took[1] \notin Range(RankChars)
           /\ verdict' = [t |-> "rank", input |-> Lib!Text(text), bad |-> took[1]]
           /\ UNCHANGED <<text, pos, took>>
BadSuit == /\ verdict.t = "none" /\ pos = 2 /\ Len(text) = 2
           /\ took[1] \in Range(RankChars) /\ took[2] \notin Range(SuitChars)
           /\ verdict' = [t |-> "suit", input |-> Lib!Text(text), bad |-> took[2]]
           /\ UNCHANGED <<text, pos, took>>
Accept == /\ verdict.t = "none" /\ pos = 2 /\ Len(text) = 2
          /\ took[1] \in Range(RankChars) /\ took[2] \in Range(SuitChars)
          /\ verdict' = [t |-> "card", card |-> took[1] \o took[2]]
          /\ UNCHANGED <<text, pos, took>>
Next == TakeChar \/ TooLongOrShort \/ BadRank \/ BadSuit \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Decided == verdict.t # "none"
NeverReadsFar == pos <= 3
OneVerdict == Cardinality({a \in {"TooLongOrShort", "BadRank", "BadSuit", "Accept"} :
                 CASE a = "TooLongOrShort" -> ENABLED TooLongOrShort
                   [] a = "BadRank" -> ENABLED BadRank
                   [] a = "BadSuit" -> ENABLED BadSuit
                   [] a = "Accept" -> ENABLED Accept}) <= 1
AsDeclared == Decided => verdict = Lib!ParseOut(text)
OnlyNames == (Decided /\ verdict.t = "card") <=> (Decided /\ Lib!Text(text) \in CardNames)
RoundTrip == (Decided /\ verdict.t = "card") => CardName(CardOfName[verdict.card]) = Lib!Text(text)
Terminates == <>Decided

\* every text with its verdict, for replay
Ordered == TLCEval(SetToSeq(Texts))
Export == TLCGet("level") >= 0 /\ ndJsonSerialize(IOEnv.OUT,
             [i \in 1..Len(Ordered) |->
                 [op |-> "parse", chars |-> Ordered[i], out |-> Lib!ParseOut(Ordered[i])]])
=============================================================================
