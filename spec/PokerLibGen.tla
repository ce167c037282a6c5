---------------------------- MODULE PokerLibGen ----------------------------
(* Behaviours of PokerLib generated by TLC in simulation mode, with the      *)
(* result the specification expects of each call.  The harness replays them  *)
(* into the library.  IOEnv.PROFILE picks the part of the vocabulary.        *)
EXTENDS PokerLib, Json, IOUtils, Randomization

Depth == atoi(IOEnv.DEPTH)
Profile == IOEnv.PROFILE

VARIABLE log
gvars == <<libvars, log>>

Rnd(S) == RandomElement(S)
\* a random order of a set
ShuffledSeq(S) == LET w == TLCEval([c \in S |-> Rnd(0..1000000000)])
                  IN  SetToSortSeq(S, LAMBDA a, b : w[a] < w[b] \/ (w[a] = w[b] /\ a < b))
AtMost(n, S) == IF Cardinality(S) < n THEN Cardinality(S) ELSE n

\* card pools that make every class likely
SuitPool(s) == {MkCard(r, s) : r \in Ranks}
RankPool(D) == {MkCard(r, s) : r \in D, s \in Suits}
RunPool(h) == RankPool(IF h = Five THEN Wheel ELSE (h - 4)..h)
RunSuited(h, s) == {c \in RunPool(h) : SuitOf(c) = s}
PickPool(n) ==
    CASE n = 0 -> Cards
      [] n = 1 -> SuitPool(Rnd(Suits))
      [] n = 2 -> RankPool(RandomSubset(2, Ranks))
      [] n = 3 -> RankPool(RandomSubset(3, Ranks))
      [] n = 4 -> RunPool(Rnd(Five..Ace))
      [] n = 5 -> RunSuited(Rnd(Five..Ace), Rnd(Suits))
      [] n = 6 -> RankPool(RandomSubset(4, Ranks))
Deal(k, n) == LET p == TLCEval(PickPool(n))
                  core == TLCEval(RandomSubset(AtMost(k, p), p))
              IN  core \cup RandomSubset(k - Cardinality(core), Cards \ core)
Containers == {"array", "slice", "vec", "vecref", "box", "boxref", "arrayref", "cow", "rc", "arc"}

\* inputs for an evaluation: mostly valid, of five to nine cards
CardsIn(k, n) == ShuffledSeq(TLCEval(Deal(k, n)))
BadCards(kind) ==
    LET q == TLCEval(CardsIn(Rnd(1..8), 0)) IN
    CASE kind = 0 -> SubSeq(q, 1, AtMost(4, Range(q)))
      [] kind = 1 -> q \o <<q[Rnd(1..Len(q))]>>
      [] kind = 2 -> LET i == Rnd(1..Len(q)) IN <<q[i]>> \o q
      [] kind = 3 -> q \o q
      [] kind = 4 -> <<>>

FreshEv == Rnd(1..5)
EvalCalls ==
    LET evIds == DOMAIN evs
        kept == DOMAIN evals
    IN  {[op |-> "new", id |-> FreshEv], [op |-> "default", id |-> FreshEv]}
        \cup (IF evIds = {} THEN {} ELSE
               {[op |-> "clone", id |-> FreshEv, from |-> Rnd(evIds)],
                [op |-> "eqev", a |-> Rnd(evIds), b |-> Rnd(evIds)],
                [op |-> "evaluate", ev |-> Rnd(evIds), as |-> Rnd(Containers), cards |-> NamesOf(BadCards(Rnd(0..4)))]}
               \cup {[op |-> "evaluate", ev |-> Rnd(evIds), as |-> Rnd(Containers), cards |-> NamesOf(CardsIn(5, p))] : p \in 0..6}
               \cup {[op |-> "evaluate", ev |-> Rnd(evIds), as |-> Rnd(Containers), cards |-> NamesOf(CardsIn(Rnd(6..9), p))] : p \in 0..6}
               \cup {[op |-> "keep", ev |-> Rnd(evIds), as |-> Rnd(Containers), id |-> Rnd(1..12), cards |-> NamesOf(CardsIn(Rnd(5..8), p))] : p \in 0..6})
        \cup (IF Cardinality(evIds) > 2 THEN {[op |-> "drop", id |-> Rnd(evIds)]} ELSE {})
        \cup (IF Cardinality(kept) < 2 THEN {} ELSE
               {[op |-> "cmp", a |-> Rnd(kept), b |-> Rnd(kept)], [op |-> "cmp", a |-> Rnd(kept), b |-> Rnd(kept)],
                [op |-> "bound", a |-> Rnd(kept)]})

\* characters that come near, but are no rank or suit
NearMisses == {"t", "j", "q", "k", "a", "1", "0", "C", "D", "H", "S", "x", " ", "é", "♣", "♠", "Τ", "с", "２", "-", "Z"}
OneChar(n) == CASE n \in 0..4 -> Rnd(RankCharSet) [] n \in 5..8 -> Rnd(SuitCharSet) [] OTHER -> Rnd(NearMisses)
AnyText(n) ==
    CASE n \in 0..3 -> <<Rnd(RankCharSet), Rnd(SuitCharSet)>>
      [] n = 4 -> <<OneChar(Rnd(0..11)), OneChar(Rnd(0..11))>>
      [] n = 5 -> <<Rnd(RankCharSet), Rnd(NearMisses)>>
      [] n = 6 -> <<Rnd(NearMisses), Rnd(SuitCharSet)>>
      [] n = 7 -> [i \in 1..Rnd({0, 1, 3, 4, 5}) |-> OneChar(Rnd(0..11))]
      [] n = 8 -> <<Rnd(RankCharSet), Rnd(SuitCharSet), OneChar(Rnd(0..11))>>
Texts(n, allgood) == [i \in 1..n |-> AnyText(IF allgood THEN 0 ELSE Rnd(0..8))]
Sources == {"vec", "slice", "filter", "strings"}
Draining == {"rest", "last", "count", "collect"}
Hows == {"collect", "for", "foreach", "fold", "byref", "take"}
ParseCalls ==
    LET ids == DOMAIN iters IN
    {[op |-> "parse", chars |-> AnyText(Rnd(0..8))], [op |-> "parse", chars |-> AnyText(Rnd(4..8))],
     [op |-> "chars", a |-> OneChar(Rnd(0..11)), b |-> OneChar(Rnd(3..11))],
     [op |-> "perr", chars |-> AnyText(7)],
     [op |-> "text", card |-> Rnd(CardNames)],
     [op |-> "cardcmp", a |-> Rnd(CardNames), b |-> Rnd(CardNames)],
     [op |-> "serr", n |-> Rnd(0..4)],
     [op |-> "box", lists |-> [i \in 1..Rnd(2..5) |-> NamesOf(CardsIn(Rnd(0..6), 0))]],
     [op |-> "iter", id |-> Rnd(1..3), src |-> Rnd(Sources), strs |-> Texts(Rnd(0..9), FALSE)],
     [op |-> "iter", id |-> Rnd(1..3), src |-> Rnd(Sources), strs |-> Texts(Rnd(0..9), TRUE)]}
    \cup (IF ids = {} THEN {} ELSE
          {[op |-> "next", id |-> Rnd(ids)], [op |-> "nth", id |-> Rnd(ids), n |-> Rnd(0..3)]}
          \cup {[op |-> o, id |-> Rnd(ids), how |-> Rnd(Hows)] : o \in Draining})

TableOf(n, b, p) ==
    LET q == CardsIn(2 * n + b, p)
    IN  [op |-> "show", board |-> NamesOf(SubSeq(q, 2 * n + 1, 2 * n + b)),
         hands |-> [i \in 1..n |-> NamesOf(<<q[2 * i - 1], q[2 * i]>>)]]
ShowCalls == {TableOf(Rnd(2..10), Rnd(3..5), p) : p \in {0, 4, 6}}

Calls == CASE Profile = "eval" -> EvalCalls
           [] Profile = "parse" -> ParseCalls
           [] Profile = "show" -> ShowCalls
\* results that follow from call and state
NeedsFail(e) == IF e.op = "perr" THEN ParseOut(e.chars).t # "card" ELSE TRUE

GInit == LibInit /\ log = <<>>
GNext == /\ Len(log) < Depth
         /\ \E e \in {Rnd(TLCEval(Calls))} :
              /\ NeedsFail(e)
              /\ Call(e, Outcome(e))
              /\ log' = Append(log, e @@ [out |-> Outcome(e)])
GSpec == GInit /\ [][GNext]_gvars

Dump == Len(log) = Depth =>
          ndJsonSerialize(IOEnv.OUT \o "-" \o ToString(TLCGet("stats").traces) \o ".ndjson", log)
=============================================================================
