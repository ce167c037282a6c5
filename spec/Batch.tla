------------------------------- MODULE Batch -------------------------------
(* A batch parser over a source of texts, driven one pull at a time: next,   *)
(* skipping, draining and collecting are all loops of pulls.  TLC checks     *)
(* every batch of up to MaxLen texts against what PokerLib says these        *)
(* operations return, and that nothing is pulled before it is asked for.     *)
EXTENDS Cards

CONSTANTS Kinds, MaxLen
Lib == INSTANCE PokerLib WITH evs <- <<>>, evals <- <<>>, iters <- <<>>,
                              decks <- <<>>, order <- <<>>, shuf <- <<>>
TextOf(k) == CASE k = "good1" -> <<"A", "c">> [] k = "good2" -> <<"2", "d">>
               [] k = "long" -> <<"1", "0", "c">> [] k = "badrank" -> <<"x", "c">>
               [] k = "badsuit" -> <<"A", "x">> [] k = "empty" -> <<>>

VARIABLES source,   \* the whole batch
          pulled,   \* how many texts were taken from it
          mode,     \* what the user is doing: idle, collecting, draining, skipping
          acc,      \* results gathered so far
          skip,     \* results still to be thrown away
          answer    \* result of the finished operation
vars == <<source, pulled, mode, acc, skip, answer>>

Batches == UNION {[1..n -> {TextOf(k) : k \in Kinds}] : n \in 0..MaxLen}
NoAnswer == [t |-> "none"]
Init == /\ source \in Batches /\ pulled = 0 /\ mode = "idle" /\ acc = <<>> /\ skip = 0
        /\ answer = NoAnswer

Rest == SubSeq(source, pulled + 1, Len(source))
Item == Lib!ParseOut(source[pulled + 1])
NextItem == /\ mode = "idle" /\ pulled < Len(source)
            /\ pulled' = pulled + 1 /\ answer' = Item
            /\ UNCHANGED <<source, mode, acc, skip>>
Begin(m) == /\ mode = "idle" /\ mode' = m /\ acc' = <<>> /\ answer' = NoAnswer
            /\ UNCHANGED <<source, pulled>>
BeginCollect == Begin("collect") /\ skip' = 0
BeginDrain == Begin("drain") /\ skip' = 0
BeginNth == \E n \in 0..MaxLen : Begin("nth") /\ skip' = n
Pull == /\ mode \in {"collect", "drain", "nth"} /\ pulled < Len(source)
        /\ pulled' = pulled + 1
        /\ CASE mode = "collect" ->
                  IF Item.t = "card" THEN acc' = Append(acc, Item.card) /\ UNCHANGED <<mode, answer>>
                  ELSE mode' = "over" /\ answer' = Item /\ UNCHANGED acc
             [] mode = "drain" -> acc' = Append(acc, Item) /\ UNCHANGED <<mode, answer>>
             [] mode = "nth" ->
                  IF skip = 0 THEN mode' = "idle" /\ answer' = Item /\ UNCHANGED acc
                  ELSE UNCHANGED <<mode, answer, acc>>
        /\ skip' = IF mode = "nth" /\ skip > 0 THEN skip - 1 ELSE skip
        /\ UNCHANGED source
Exhausted == /\ mode \in {"collect", "drain", "nth"} /\ pulled = Len(source)
             /\ mode' = "over"
             /\ answer' = CASE mode = "collect" -> [t |-> "cards", cards |-> acc]
                            [] mode = "drain" -> [t |-> "list", v |-> acc]
                            [] mode = "nth" -> [t |-> "end"]
             /\ UNCHANGED <<source, pulled, acc, skip>>
Next == NextItem \/ BeginCollect \/ BeginDrain \/ BeginNth \/ Pull \/ Exhausted
Spec == Init /\ [][Next]_vars /\ WF_vars(Pull \/ Exhausted)

PulledInRange == pulled \in 0..Len(source)
\* collecting gives what PokerLib says for what was left when it began
CollectIsFirstFailure ==
    (mode = "over" /\ answer.t \notin {"list", "end"}) =>
       LET began == IF answer.t = "cards" THEN pulled - Len(answer.cards) ELSE pulled - 1 - Len(acc)
       IN  answer = Lib!CollectOut(SubSeq(source, began + 1, Len(source)))
DrainKeepsFailures ==
    (mode = "over" /\ answer.t = "list") =>
       \A i \in DOMAIN answer.v : answer.v[i] = Lib!ParseOut(source[Len(source) - Len(answer.v) + i])
\* an operation that is not a loop takes one text at most, at its own step
Lazy == [][pulled' = pulled \/ pulled' = pulled + 1]_vars
NothingAhead == [][(mode = "idle" /\ mode' # "idle") => pulled' = pulled]_vars
Ends == (mode \in {"collect", "drain", "nth"}) ~> (mode \in {"over", "idle"})
=============================================================================
