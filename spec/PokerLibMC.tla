----------------------------- MODULE PokerLibMC -----------------------------
(* PokerLib itself, exhaustively, in the small: every session of a few calls *)
(* over a deck of a few cards, with every result PokerLib allows.  Recorded  *)
(* sessions are judged by what PokerLib allows; here TLC checks that what it *)
(* allows is no more than the properties say.  The properties are stated     *)
(* over what the user saw (the ghosts), not over PokerLib's own state.       *)
EXTENDS PokerLib

CONSTANTS Part, MaxCalls, Deck, MaxBatch

SmallDeck == Deck
SmallSize == Cardinality(Deck)

VARIABLES met,      \* deck instance -> cards seen at positions
          whole,    \* whole sequences seen, of decks gone and present
          given,    \* batch -> <<its texts, results by position>>
          said,     \* what evaluations answered: <<set of cards or sequence, answer>>
          last,     \* the last call and its result
          calls
mcvars == <<libvars, met, whole, given, said, last, calls>>

-----------------------------------------------------------------------------
Ids == {1, 2}
Wrong == "Kd"                                   \* a card of no deck here
Seqs(n) == [1..n -> SmallDeck \cup {Wrong}]
DeckCalls == {[op |-> "deck", id |-> i] : i \in Ids}
             \cup UNION {{[op |-> "dnext", id |-> i], [op |-> "drest", id |-> i], [op |-> "dcount", id |-> i],
                          [op |-> "dnth", id |-> i, n |-> 1], [op |-> "dnth", id |-> i, n |-> 3], [op |-> "dhint", id |-> i]} : i \in DOMAIN decks}
Gens == {"1/0", "1/1", "2/0"}
ShuffleCalls == {[op |-> "shuffle", gen |-> g] : g \in Gens}
Hands == {<<"Ac", "Kc", "Qc", "Jc", "Tc">>, <<"Tc", "Jc", "Ac", "Kc", "Qc">>, <<"2c", "2d", "3h", "4s", "9c">>,
          <<"2c", "2d">>, <<"2c", "2c", "3h", "4s", "9c">>}
Sorts == {<<1>>, <<1, 2>>, <<2, 1>>}
EvalCalls == {[op |-> o, id |-> i] : o \in {"new", "default"}, i \in Ids}
             \cup {[op |-> "clone", id |-> i, from |-> f] : i \in Ids, f \in DOMAIN evs}
             \cup {[op |-> "drop", id |-> i] : i \in DOMAIN evs}
             \cup {[op |-> "evaluate", ev |-> v, cards |-> h] : v \in DOMAIN evs, h \in Hands}
             \cup {[op |-> "keep", ev |-> v, id |-> i, cards |-> h] : v \in DOMAIN evs, i \in Ids, h \in {h \in Hands : ~EvalFails(CardsOf(h))}}
             \cup {[op |-> "eqev", a |-> a, b |-> b] : a, b \in DOMAIN evs}
             \cup {[op |-> "cmp", a |-> a, b |-> b] : a, b \in DOMAIN evals}
             \cup {[op |-> "bound", a |-> a] : a \in DOMAIN evals}
             \cup {[op |-> "sort", ids |-> q] : q \in {q \in Sorts : Range(q) \subseteq DOMAIN evals}}
Texts == {<<"A", "c">>, <<"2", "d">>, <<"A", "x">>, <<"x", "c">>, <<>>}
BatchCalls == {[op |-> "iter", id |-> 1, strs |-> q] : q \in UNION {[1..n -> Texts] : n \in 0..MaxBatch}}
              \cup UNION {{[op |-> "next", id |-> i], [op |-> "nth", id |-> i, n |-> 0], [op |-> "nth", id |-> i, n |-> 1], [op |-> "nth", id |-> i, n |-> 3],
                           [op |-> "rest", id |-> i], [op |-> "last", id |-> i], [op |-> "count", id |-> i], [op |-> "collect", id |-> i],
                           [op |-> "hint", id |-> i, exact |-> TRUE], [op |-> "hint", id |-> i, exact |-> FALSE]} : i \in DOMAIN iters}
PossibleCalls == CASE Part = "decks" -> DeckCalls [] Part = "shuffles" -> ShuffleCalls
                   [] Part = "evaluations" -> EvalCalls [] Part = "batches" -> BatchCalls

\* results a library might come up with, right or wrong
Hints == {[t |-> "hint", lo |-> lo, hi |-> hi] : lo \in 0..4, hi \in -1..4}
Answers == {[t |-> "ok", name |-> HandName(ClassOfStrength(Best(Range(CardsOf(h)))))] : h \in {h \in Hands : ~EvalFails(CardsOf(h))}}
           \cup {EvalErr(CardsOf(h)) : h \in {h \in Hands : EvalFails(CardsOf(h))}}
Items == {End} \cup {ParseOut(x) @@ [pulled |-> p] : x \in Texts, p \in 1..4}
Results(e) ==
    CASE e.op \in {"dnext", "dnth"} -> {End} \cup {[t |-> "card", card |-> c] : c \in SmallDeck \cup {Wrong}}
      [] e.op = "drest" -> {[t |-> "cards", cards |-> q] : q \in Seqs(SmallSize - decks[e.id])}
      [] e.op \in {"dhint", "hint"} -> Hints
      [] e.op \in {"dcount", "count"} -> {[t |-> "n", v |-> v] : v \in 0..5}
      [] e.op = "shuffle" -> {[t |-> "cards", cards |-> q] : q \in Seqs(SmallSize)}
      [] e.op \in {"evaluate", "keep"} -> Answers
      [] e.op = "eqev" -> {[t |-> "bool", v |-> b] : b \in BOOLEAN}
      [] e.op = "cmp" -> {[t |-> "cmp", v |-> v, lt |-> b, max |-> v] : v \in {"lt", "eq", "gt"}, b \in BOOLEAN}
                         \cup {[t |-> "cmp", v |-> v, lt |-> b, hashok |-> h] : v \in {"lt", "eq", "gt"}, b, h \in BOOLEAN}
      [] e.op = "bound" -> {[t |-> "bound", best |-> a, worst |-> b] : a, b \in {"lt", "eq", "gt"}}
      [] e.op = "sort" -> {[t |-> "ids", ids |-> q] : q \in Sorts}
      [] e.op \in {"next", "nth"} -> Items
      [] e.op = "last" -> {End} \cup {ParseOut(x) : x \in Texts}
      [] e.op = "rest" -> {[t |-> "list", v |-> q] : q \in UNION {[1..n -> {ParseOut(x) : x \in Texts}] : n \in 0..3}}
      [] e.op = "collect" -> {[t |-> "cards", cards |-> q] : q \in UNION {[1..n -> {"Ac", "2d"}] : n \in 0..3}}
                             \cup {ParseOut(x) : x \in Texts}
      [] OTHER -> {[t |-> "unit"]}

-----------------------------------------------------------------------------
MCInit == /\ LibInit /\ met = <<>> /\ whole = {} /\ given = <<>> /\ said = {}
          /\ last = [e |-> [op |-> "none"], out |-> [t |-> "unit"]] /\ calls = 0
SawCards(e, out) ==
    CASE e.op = "deck" -> Put(met, e.id, <<>>)
      [] e.op \in {"dnext", "dnth"} /\ out.t = "card" -> Put(met, e.id, (decks[e.id] + 1 + (IF e.op = "dnth" THEN e.n ELSE 0)) :> out.card @@ met[e.id])
      [] e.op = "drest" -> Put(met, e.id, [i \in (decks[e.id] + 1)..SmallSize |-> out.cards[i - decks[e.id]]] @@ met[e.id])
      [] OTHER -> met
SawResults(e, out) ==
    LET done(i) == Len(given[i][1]) - Len(Pending(i)) IN
    CASE e.op = "iter" -> Put(given, e.id, <<e.strs, <<>>>>)
      [] e.op = "next" /\ out.t # "end" -> Put(given, e.id, <<given[e.id][1], (done(e.id) + 1) :> out @@ given[e.id][2]>>)
      [] e.op = "nth" /\ out.t # "end" -> Put(given, e.id, <<given[e.id][1], (done(e.id) + 1 + e.n) :> out @@ given[e.id][2]>>)
      [] e.op = "rest" -> Put(given, e.id, <<given[e.id][1], [i \in (done(e.id) + 1)..(done(e.id) + Len(out.v)) |-> out.v[i - done(e.id)]] @@ given[e.id][2]>>)
      [] OTHER -> given
MCNext == /\ calls < MaxCalls
          /\ \E e \in PossibleCalls : \E out \in Results(e) :
               /\ Allowed(e, out)
               /\ Call(e, out)
               /\ met' = SawCards(e, out)
               /\ whole' = whole \cup {met'[i] : i \in {i \in DOMAIN met' : DOMAIN met'[i] = 1..SmallSize}}
               /\ given' = SawResults(e, out)
               /\ said' = IF e.op \in {"evaluate", "keep"}
                          THEN said \cup {<<IF AllDistinct(e.cards) THEN <<1, Range(e.cards)>> ELSE <<2, e.cards>>, out>>} ELSE said
               /\ last' = [e |-> e, out |-> out]
          /\ calls' = calls + 1
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
\* C13: each card once, one order, however decks are consumed side by side
EachCardOnce == \A i \in DOMAIN met : IsInjective(met[i]) /\ Range(met[i]) \subseteq SmallDeck
OneOrder == \A i, j \in DOMAIN met : \A p \in DOMAIN met[i] \cap DOMAIN met[j] : met[i][p] = met[j][p]
OneWhole == Cardinality(whole) <= 1 /\ \A w \in whole : Range(w) = SmallDeck
EndsWhenEmpty == [][LET e == last'.e IN
    e.op \in {"dnext", "dnth"} => (last'.out.t = "end" <=> decks[e.id] + (IF e.op = "dnth" THEN e.n ELSE 0) >= SmallSize)]_mcvars
\* every order is still possible for a library not yet seen
CountsAreRight == [][last'.e.op = "dcount" => last'.out.v = SmallSize - decks[last'.e.id]]_mcvars
\* C14: equal states give equal decks, others differ; always a whole deck
Shuffled == last.e.op = "shuffle" => last.out.cards = shuf[last.e.gen] /\ Range(last.out.cards) = SmallDeck
ShufflesDiffer == \A g, h \in DOMAIN shuf : g # h => shuf[g] # shuf[h]
SameStateSameDeck == [][\A g \in DOMAIN shuf : shuf'[g] = shuf[g]]_mcvars
\* C04, C22: the answer is a function of the cards, whichever evaluator gives it
OneAnswer == \A a, b \in said : a[1] = b[1] => a[2] = b[2]
EvaluatorsEqual == last.e.op = "eqev" => last.out.v
KeptStay == [][\A k \in DOMAIN evals : (last'.e.op = "keep" /\ last'.e.id = k) \/ evals'[k] = evals[k]]_mcvars
\* C06: comparisons tell one story
OneStory == last.e.op = "cmp" => /\ last.out.lt = (last.out.v = "lt")
                                 /\ (last.e.a = last.e.b => last.out.v = "eq")
                                 /\ ("hashok" \in DOMAIN last.out => last.out.hashok)
NothingBeyondBounds == last.e.op = "bound" => last.out.best # "gt" /\ last.out.worst # "lt"
SortedById == last.e.op = "sort" => Range(last.out.ids) = Range(last.e.ids) /\ Len(last.out.ids) = Len(last.e.ids)
\* C12: each result is that of its own text; sizes hold; collecting stops at the first failure
OwnText == \A i \in DOMAIN given : \A p \in DOMAIN given[i][2] :
              LET r == given[i][2][p] IN p <= Len(given[i][1]) /\ \A f \in DOMAIN r \ {"pulled"} : r[f] = ParseOut(given[i][1][p])[f]
HintsHold == last.e.op = "hint" => LET n == Len(Pending(last.e.id)) IN
                /\ last.out.lo <= n /\ (last.out.hi = -1 \/ n <= last.out.hi)
                /\ (last.e.exact => last.out.lo = n /\ last.out.hi = n)
AskedOnly == [][last'.e.op \in {"next", "nth"} /\ last'.out.t # "end" => last'.out.pulled = Len(Pending(last'.e.id)) - Len(iters'[last'.e.id])]_mcvars
FirstFailureWins == [][last'.e.op = "collect" =>
    LET q == Pending(last'.e.id)
        bad == {i \in DOMAIN q : Text(q[i]) \notin CardNames} IN
    IF bad = {} THEN last'.out = [t |-> "cards", cards |-> [i \in DOMAIN q |-> Text(q[i])]]
    ELSE last'.out = ParseOut(q[Min(bad)])]_mcvars
\* whatever a correct library does is allowed: no call is left without a result
NeverStuck == \A e \in PossibleCalls : e.op \notin {"new", "default", "clone", "drop", "deck", "iter"} =>
                 \E out \in Results(e) : Allowed(e, out)
=============================================================================
