------------------------------ MODULE PokerLib ------------------------------
(* The library as a state machine.                                           *)
(*                                                                           *)
(* A user session is a sequence of calls.  What the library may keep from    *)
(* one call to the next is little, and the state says exactly what:          *)
(*   evs    - the live evaluators, and how each was obtained                 *)
(*   evals  - evaluations handed out (kept by the user, compared later)      *)
(*   iters  - batch parsers: the inputs each has not consumed yet            *)
(*   decks  - deck iterators: how many cards each has yielded                *)
(*   order  - what is known so far of the one fixed order of generated decks *)
(*   shuf   - shuffles seen so far, by generator state                       *)
(* Everything else is a function of the arguments: Outcome says which one.   *)
(*                                                                           *)
(* A call is a record e with field op (the action) and its arguments; the    *)
(* recorded traces add the observed result in e.out.                         *)
EXTENDS Rules

\* what a deck is (small configurations use a smaller one)
DeckNames == CardNames
DeckSize == 52

VARIABLES evs, evals, iters, decks, order, shuf
libvars == <<evs, evals, iters, decks, order, shuf>>

LibInit == /\ evs = <<>> /\ evals = <<>> /\ iters = <<>>
           /\ decks = <<>> /\ order = <<>> /\ shuf = <<>>

(* finite maps: <<>> is the empty one *)
Put(m, k, v) == (k :> v) @@ m
Drop(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]

-----------------------------------------------------------------------------
(* Evaluation *)
EvalErr(cards) ==
    IF ~AllDistinct(cards) THEN [t |-> "dup", cards |-> NamesOf(cards)]
    ELSE [t |-> "size", n |-> Len(cards)]
EvalFails(cards) == ~AllDistinct(cards) \/ Len(cards) < 5

RankOfClass(r) == IF r = None THEN "" ELSE RankVariants[r + 1]
\* what a result of class c says about itself
Describes(c) == [t |-> "ok", class |-> ClassNames[c.cat + 1], r1 |-> RankOfClass(c.r1), r2 |-> RankOfClass(c.r2),
                 name |-> HandName(c), cname |-> HandName(c), royal |-> IsRoyal(c),
                 preds |-> [i \in 1..9 |-> i = c.cat + 1]]
EvalOk(k) == Describes(ClassOfStrength(k))
EvalOut(cards) == IF EvalFails(cards) THEN EvalErr(cards)
                  ELSE EvalOk(Best(Range(cards)))

\* messages of evaluation errors; the repeated cards may be listed in any order
Repeated(cards) == {c \in Range(cards) : Cardinality({i \in DOMAIN cards : cards[i] = c}) > 1}
DupPrefix == "Cannot evaluate a poker hand with a set of cards that are not unique. Cards duplicated at least once: "
SizeMessage(n) == "Cannot evaluate a poker hand with a set of less than 5 cards. Number of cards received: " \o ToString(n)

-----------------------------------------------------------------------------
(* Comparison of evaluations *)
Cmp(a, b) == IF a < b THEN "lt" ELSE IF a > b THEN "gt" ELSE "eq"
\* every way of asking: operators, total and partial order, max and min, the
\* better / worse / equal methods, and hashing (equal values hash alike)
CmpOut(a, b) == [t |-> "cmp", v |-> Cmp(a, b), partial |-> Cmp(a, b),
                 lt |-> a < b, le |-> a <= b, eq |-> a = b, ne |-> a # b, ge |-> a >= b, gt |-> a > b,
                 better |-> a > b, worse |-> a < b, equal |-> a = b,
                 maxv |-> Cmp(Max({a, b}), a), minv |-> Cmp(Min({a, b}), a), hashok |-> TRUE]
Worst == Strength([r \in Ranks |-> IF r \in {0, 1, 2, 3, 5} THEN 1 ELSE 0], FALSE)
Royal == Strength([r \in Ranks |-> IF r \in 8..12 THEN 1 ELSE 0], TRUE)
BoundOut(k) == [t |-> "bound", best |-> Cmp(k, Royal), worst |-> Cmp(k, Worst)]
\* class values as reported by the library: variant name and rank names
RankNo(v) == IF v = "" THEN None ELSE CHOOSE i \in Ranks : RankVariants[i + 1] = v
ReportedClass(o) == [cat |-> (CHOOSE i \in 1..9 : ClassNames[i] = o.class) - 1,
                     r1 |-> RankNo(o.r1), r2 |-> RankNo(o.r2)]

-----------------------------------------------------------------------------
(* Parsing.  A text is the sequence of its characters.                       *)
RankCharSet == Range(RankChars)
SuitCharSet == Range(SuitChars)
Text(chars) == FoldLeft(LAMBDA a, c : a \o c, "", chars)
ParseOut(chars) ==
    IF Len(chars) # 2 THEN [t |-> "length", input |-> Text(chars)]
    ELSE IF chars[1] \notin RankCharSet
         THEN [t |-> "rank", input |-> Text(chars), bad |-> chars[1]]
    ELSE IF chars[2] \notin SuitCharSet
         THEN [t |-> "suit", input |-> Text(chars), bad |-> chars[2]]
    ELSE [t |-> "card", card |-> chars[1] \o chars[2]]
\* a pair of characters: the error carries the one character as its input
CharsOut(a, b) ==
    IF a \notin RankCharSet THEN [t |-> "rank", input |-> a, bad |-> a]
    ELSE IF b \notin SuitCharSet THEN [t |-> "suit", input |-> b, bad |-> b]
    ELSE [t |-> "card", card |-> a \o b]
AcceptOut(o) == IF o.t = "card" THEN o ELSE [t |-> "refused"]
\* the message of a parse error whose input has n characters
ParseMessage(out, n) ==
    "Error parsing input '" \o out.input \o "' as a Card: " \o
    CASE out.t = "length" -> "Found input of length " \o ToString(n) \o ", expected 2"
      [] out.t = "rank" -> "Invalid rank character '" \o out.bad \o "', expected one of [23456789TJQKA]"
      [] out.t = "suit" -> "Invalid suit character '" \o out.bad \o "', expected one of [chsd]"

-----------------------------------------------------------------------------
(* Batch parsing: remaining inputs *)
Pending(id) == iters[id]
End == [t |-> "end"]
FirstFailure(q) == {i \in DOMAIN q : ParseOut(q[i]).t # "card"}
CollectOut(q) ==
    IF FirstFailure(q) = {} THEN [t |-> "cards", cards |-> [i \in DOMAIN q |-> ParseOut(q[i]).card]]
    ELSE ParseOut(q[Min(FirstFailure(q))])

-----------------------------------------------------------------------------
(* Outcome(e): the result every correct library returns for the call e in    *)
(* the current state.  Calls whose result is only constrained (decks, which  *)
(* have an unspecified order, and shuffles) are handled in Allowed below.    *)
Result(e) ==
    CASE e.op \in {"new", "default", "clone", "drop"} -> [t |-> "unit"]
      [] e.op = "eqev" -> [t |-> "bool", v |-> TRUE]
      [] e.op = "evaluate" -> EvalOut(CardsOf(e.cards))
      [] e.op = "keep" -> EvalOut(CardsOf(e.cards))
      [] e.op = "cmp" -> CmpOut(evals[e.a], evals[e.b])
      [] e.op = "bound" -> BoundOut(evals[e.a])
      [] e.op = "parse" -> ParseOut(e.chars)
      [] e.op = "chars" -> CharsOut(e.a, e.b)
      \* is it accepted, and as which card
      [] e.op = "accept" -> AcceptOut(ParseOut(e.chars))
      [] e.op = "acceptchars" -> AcceptOut(CharsOut(e.a, e.b))
      [] e.op = "text" -> LET c == CardOfName[e.card] IN
            [t |-> "text", text |-> CardName(c), display |-> CardDisplay(c),
             rank |-> RankVariants[RankOf(c) + 1], suit |-> SuitVariants[SuitOf(c) + 1],
             int |-> ToString(UniqueInt(c))]
      [] e.op = "cardcmp" -> LET a == CardOfName[e.a]   b == CardOfName[e.b] IN
            [t |-> "cardcmp", v |-> Cmp(RankOf(a), RankOf(b)), same |-> a = b]
      [] e.op = "perr" -> LET o == ParseOut(e.chars) IN
            [t |-> "msg", text |-> ParseMessage(o, Len(e.chars))]
      [] e.op = "serr" -> [t |-> "msg", text |-> SizeMessage(e.n)]
      [] e.op = "iter" -> [t |-> "unit"]
      [] e.op = "next" -> IF Pending(e.id) = <<>> THEN End
                          ELSE ParseOut(Head(Pending(e.id))) @@ [pulled |-> 1]
      [] e.op = "nth" -> IF e.n >= Len(Pending(e.id)) THEN End
                         ELSE ParseOut(Pending(e.id)[e.n + 1]) @@ [pulled |-> e.n + 1]
      [] e.op = "last" -> IF Pending(e.id) = <<>> THEN End ELSE ParseOut(Last(Pending(e.id)))
      [] e.op = "count" -> [t |-> "n", v |-> Len(Pending(e.id))]
      [] e.op = "rest" -> [t |-> "list", v |-> [i \in DOMAIN Pending(e.id) |-> ParseOut(Pending(e.id)[i])]]
      [] e.op = "collect" -> CollectOut(Pending(e.id))
      [] e.op = "deck" -> [t |-> "unit"]
      [] e.op = "dcount" -> [t |-> "n", v |-> DeckSize - decks[e.id]]
      [] e.op = "box" -> [t |-> "cards", cards |-> FlattenSeq(e.lists)]
      [] e.op = "show" ->
            LET board == Range(CardsOf(e.board))
                n == Len(e.hands)
                sc == TLCEval([i \in 1..n |-> Best(board \cup Range(CardsOf(e.hands[i])))])
                m == Max(Range(sc))
            IN  [t |-> "winners", who |-> SelectSeq([i \in 1..n |-> i], LAMBDA i : sc[i] = m),
                 name |-> HandName(ClassOfStrength(m))]

\* calls that ask a source of texts ask it until it ends and not again after that
Asking == {"next", "nth", "last", "count", "collect", "rest"}
Outcome(e) == IF e.op \in Asking THEN Result(e) @@ [overasked |-> FALSE] ELSE Result(e)

Constrained == {"describe", "classcmp", "hint", "dnext", "dnth", "drest", "dhint", "shuffle", "derr", "sort"}
\* a size hint is right when the true number lies within it
HintAllows(out, n) == out.lo <= n /\ (out.hi = -1 \/ n <= out.hi)

\* the deck's card at position i is the one known, or a card not met before
OrderAllows(i, c) == IF i \in DOMAIN order THEN order[i] = c
                     ELSE c \in DeckNames /\ c \notin {order[j] : j \in DOMAIN order}
IsDeck(q) == Len(q) = DeckSize /\ Range(q) = DeckNames

\* words of a message after its fixed prefix, as logged by the harness
DupMessageAllowed(out, cards) ==
    /\ out.prefix = DupPrefix
    /\ AllDistinct(out.words)
    /\ Range(out.words) = {CardName(c) : c \in Repeated(cards)}

\* o agrees with the expected outcome x on every field that was observed
AgreesWith(o, x) == DOMAIN o \subseteq DOMAIN x /\ \A f \in DOMAIN o : o[f] = x[f]

\* the form of a constrained call's result
Form(e) == CASE e.op = "describe" -> {"ok"}
             [] e.op = "classcmp" -> {"classcmp"}
             [] e.op \in {"hint", "dhint"} -> {"hint"}
             [] e.op \in {"dnext", "dnth"} -> {"card", "end"}
             [] e.op \in {"drest", "shuffle"} -> {"cards"}
             [] e.op = "derr" -> {"dupmsg"}
             [] e.op = "sort" -> {"ids"}

AllowedResult(e, out) ==
    CASE e.op = "describe" -> AgreesWith(out, Describes(ReportedClass(out)))
      \* class values are ordered by class, then ranks; a greater class is a better hand
      [] e.op = "classcmp" -> /\ out.t = "classcmp"
                              /\ out.v = Cmp(ClassKey(ReportedClass(out.a)), ClassKey(ReportedClass(out.b)))
                              /\ (out.v # "eq" => out.eval = out.v)
      [] e.op = "hint" -> /\ HintAllows(out, Len(Pending(e.id)))
                          /\ (e.exact => out.lo = Len(Pending(e.id)) /\ out.hi = out.lo)
      [] e.op = "dhint" -> HintAllows(out, DeckSize - decks[e.id])
      [] e.op = "sort" -> /\ Len(out.ids) = Len(e.ids) /\ Range(out.ids) = Range(e.ids)
                          /\ \A i \in 1..(Len(e.ids) - 1) : evals[out.ids[i]] <= evals[out.ids[i + 1]]
      [] e.op = "dnext" -> IF decks[e.id] = DeckSize THEN out = End
                           ELSE out.t = "card" /\ OrderAllows(decks[e.id] + 1, out.card)
      [] e.op = "dnth" -> IF decks[e.id] + e.n >= DeckSize THEN out = End
                          ELSE out.t = "card" /\ OrderAllows(decks[e.id] + e.n + 1, out.card)
      [] e.op = "drest" -> /\ out.t = "cards" /\ Len(out.cards) = DeckSize - decks[e.id]
                           /\ AllDistinct(out.cards)
                           /\ \A i \in DOMAIN out.cards : OrderAllows(decks[e.id] + i, out.cards[i])
      [] e.op = "shuffle" -> /\ out.t = "cards" /\ IsDeck(out.cards)
                             /\ IF e.gen \in DOMAIN shuf THEN shuf[e.gen] = out.cards
                                ELSE \A g \in DOMAIN shuf : shuf[g] # out.cards
      [] e.op = "derr" -> DupMessageAllowed(out, CardsOf(e.cards))
      [] OTHER -> AgreesWith(out, Outcome(e))
Allowed(e, out) ==
    /\ e.op \in Constrained => out.t \in Form(e)
    /\ AllowedResult(e, out)

-----------------------------------------------------------------------------
(* The state change of call e with result out                                *)
DeckPos(e, out) ==
    CASE e.op = "dnext" -> IF decks[e.id] = DeckSize THEN DeckSize ELSE decks[e.id] + 1
      [] e.op = "dnth" -> IF decks[e.id] + e.n >= DeckSize THEN DeckSize ELSE decks[e.id] + e.n + 1
      [] OTHER -> DeckSize
\* positions of the deck order learned from a call
Learned(e, out) ==
    CASE e.op \in {"dnext", "dnth"} ->
            IF out.t = "card" THEN DeckPos(e, out) :> out.card ELSE <<>>
      [] e.op = "drest" -> [i \in (decks[e.id] + 1)..DeckSize |-> out.cards[i - decks[e.id]]]

AfterTake(q, e) ==
    CASE e.op = "next" -> IF q = <<>> THEN q ELSE Tail(q)
      [] e.op = "nth" -> IF e.n >= Len(q) THEN <<>> ELSE SubSeq(q, e.n + 2, Len(q))
      [] e.op \in {"rest", "last", "count", "collect"} -> <<>>

Obtain(e) ==        \* new evaluators
    /\ e.op \in {"new", "default", "clone"}
    /\ e.op = "clone" => e.from \in DOMAIN evs
    /\ evs' = Put(evs, e.id, e.op)
    /\ UNCHANGED <<evals, iters, decks, order, shuf>>
Discard(e) ==
    /\ e.op = "drop" /\ e.id \in DOMAIN evs
    /\ evs' = Drop(evs, e.id)
    /\ UNCHANGED <<evals, iters, decks, order, shuf>>
Evaluate(e) ==
    /\ e.op \in {"evaluate", "describe"} /\ e.ev \in DOMAIN evs
    /\ UNCHANGED libvars
Keep(e) ==          \* evaluate and keep the evaluation for later comparisons
    /\ e.op = "keep" /\ e.ev \in DOMAIN evs
    /\ ~EvalFails(CardsOf(e.cards))
    /\ evals' = Put(evals, e.id, Best(Range(CardsOf(e.cards))))
    /\ UNCHANGED <<evs, iters, decks, order, shuf>>
Compare(e) ==
    /\ \/ e.op \in {"cmp", "classcmp"} /\ {e.a, e.b} \subseteq DOMAIN evals
       \/ e.op = "bound" /\ e.a \in DOMAIN evals
       \/ e.op = "sort" /\ Range(e.ids) \subseteq DOMAIN evals /\ AllDistinct(e.ids)
    /\ UNCHANGED libvars
EqualEvaluators(e) ==
    /\ e.op = "eqev" /\ {e.a, e.b} \subseteq DOMAIN evs
    /\ UNCHANGED libvars
Pure(e) ==          \* calls on values only
    /\ e.op \in {"parse", "chars", "accept", "acceptchars", "text", "cardcmp", "perr", "serr", "derr", "box", "show"}
    /\ UNCHANGED libvars
StartBatch(e) ==
    /\ e.op = "iter"
    /\ iters' = Put(iters, e.id, e.strs)
    /\ UNCHANGED <<evs, evals, decks, order, shuf>>
Take(e) ==
    /\ e.op \in {"next", "nth", "rest", "last", "count", "collect"} /\ e.id \in DOMAIN iters
    /\ iters' = Put(iters, e.id, AfterTake(Pending(e.id), e))
    /\ UNCHANGED <<evs, evals, decks, order, shuf>>
Hint(e) ==
    /\ \/ e.op = "hint" /\ e.id \in DOMAIN iters
       \/ e.op = "dhint" /\ e.id \in DOMAIN decks
    /\ UNCHANGED libvars
StartDeck(e) ==
    /\ e.op = "deck"
    /\ decks' = Put(decks, e.id, 0)
    /\ UNCHANGED <<evs, evals, iters, order, shuf>>
DrawDeck(e, out) ==
    /\ e.op \in {"dnext", "dnth", "drest"} /\ e.id \in DOMAIN decks
    /\ order' = Learned(e, out) @@ order
    /\ decks' = Put(decks, e.id, DeckPos(e, out))
    /\ UNCHANGED <<evs, evals, iters, shuf>>
CountDeck(e) ==
    /\ e.op = "dcount" /\ e.id \in DOMAIN decks
    /\ decks' = Put(decks, e.id, DeckSize)
    /\ UNCHANGED <<evs, evals, iters, order, shuf>>
Shuffle(e, out) ==
    /\ e.op = "shuffle"
    /\ shuf' = Put(shuf, e.gen, out.cards)
    /\ UNCHANGED <<evs, evals, iters, decks, order>>

Call(e, out) ==
    \/ Obtain(e) \/ Discard(e) \/ Evaluate(e) \/ Keep(e) \/ Compare(e) \/ EqualEvaluators(e)
    \/ Pure(e) \/ StartBatch(e) \/ Take(e) \/ Hint(e)
    \/ StartDeck(e) \/ DrawDeck(e, out) \/ CountDeck(e) \/ Shuffle(e, out)

-----------------------------------------------------------------------------
(* Invariants of every session *)
OrderIsInjective == \A i, j \in DOMAIN order : order[i] = order[j] => i = j
OrderInDeck == \A i \in DOMAIN order : i \in 1..DeckSize /\ order[i] \in DeckNames
DecksBounded == \A d \in DOMAIN decks : decks[d] \in 0..DeckSize
EvalsAreStrengths == \A k \in DOMAIN evals : evals[k] \in Nat /\ CatOfStrength(evals[k]) \in 0..8
ShufflesAreDecks == \A g \in DOMAIN shuf : IsDeck(shuf[g])
LibInv == OrderIsInjective /\ OrderInDeck /\ DecksBounded /\ EvalsAreStrengths /\ ShufflesAreDecks
=============================================================================
