---------------------------- MODULE LookupBuild ----------------------------
(* How an evaluator builds its two tables, as the code does it: every hand   *)
(* is keyed by a product of primes and numbered 1 (royal flush) .. 7462, by  *)
(* counters that run through the classes separately, each starting just      *)
(* below the worst hand of the class above.  Five-rank combinations are      *)
(* generated by the next-bit-permutation trick.  TLC checks that no key is   *)
(* ever written twice, that the counters meet the next class exactly, and    *)
(* that the finished tables are the ladder of the rules of poker.            *)
EXTENDS Hands, Bitwise

Straights == <<7936, 3968, 1984, 992, 496, 248, 124, 62, 31, 4111>>
WorstStraightFlush == 10   WorstQuads == 166   WorstFullHouse == 322
WorstFlush == 1599   WorstStraight == 1609   WorstTrips == 2467
WorstTwoPair == 3325   WorstPair == 6185   WorstHighCard == 7462

VARIABLES phase,        \* what is being filled in
          pos,          \* position in that phase's outer loop
          bits,         \* current bit permutation
          notStraights, \* five-rank combinations that are no straight, ascending
          n, m,         \* counters: suited (or only) and unsuited
          flush, unsuited
vars == <<phase, pos, bits, notStraights, n, m, flush, unsuited>>

RanksOfBits(b) == {r \in Ranks : (b \div 2^r) % 2 = 1}
RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN 1 ELSE Prime(Head(q)) * Product(Tail(q))
ProductOfBits(b) == Product(Desc(RanksOfBits(b)))
HighRankOfBits(b) == IF b = 4111 THEN Five ELSE Max(RanksOfBits(b))

\* the next larger number with as many one bits
LowBit(x) == CHOOSE p \in {2^i : i \in 0..14} : x % p = 0 /\ (x \div p) % 2 = 1
NextBits(b) == LET t == b | (b - 1) IN (t + 1) | ((LowBit(t + 1) - 1) \div (2 * LowBit(b)))

Entry(cat, num, r1, r2) == [cat |-> cat, num |-> num, r1 |-> r1, r2 |-> r2]
Down == [i \in 1..13 |-> 13 - i]                 \* ranks, highest first
Without(q, S) == SelectSeq(q, LAMBDA r : r \notin S)
\* k-element subsequences in the combination iterator's order
RECURSIVE Combos(_, _)
Combos(q, k) ==
    IF k = 0 THEN <<<<>>>>
    ELSE IF Len(q) < k THEN <<>>
    ELSE LET c == TLCEval(Combos(Tail(q), k - 1))
         IN  [i \in DOMAIN c |-> <<Head(q)>> \o c[i]] \o Combos(Tail(q), k)

\* a batch of (key, entry) pairs written one after another
Keys(batch) == {batch[i][1] : i \in DOMAIN batch}
AsMap(batch) == [k \in Keys(batch) |-> batch[CHOOSE i \in DOMAIN batch : batch[i][1] = k][2]]
Fresh(batch, table) == /\ Cardinality(Keys(batch)) = Len(batch)
                       /\ Keys(batch) \cap DOMAIN table = {}

Init == /\ phase = "generate" /\ pos = 0 /\ bits = 31 /\ notStraights = <<>>
        /\ n = 1 /\ m = WorstFlush + 1 /\ flush = <<>> /\ unsuited = <<>>

Generate ==
    /\ phase = "generate" /\ pos < 1286
    /\ bits' = NextBits(bits) /\ pos' = pos + 1
    /\ notStraights' = IF bits' \in Range(Straights) THEN notStraights
                       ELSE Append(notStraights, bits')
    /\ UNCHANGED <<phase, n, m, flush, unsuited>>
GenerateDone ==
    /\ phase = "generate" /\ pos = 1286
    /\ phase' = "straights" /\ pos' = 0
    /\ UNCHANGED <<bits, notStraights, n, m, flush, unsuited>>

FillStraight ==
    /\ phase = "straights" /\ pos < 10
    /\ LET b == Straights[pos + 1]   k == ProductOfBits(b)   h == HighRankOfBits(b) IN
         /\ Assert(k \notin DOMAIN flush /\ k \notin DOMAIN unsuited, "key used twice")
         /\ flush' = (k :> Entry(StraightFlush, n, h, None)) @@ flush
         /\ unsuited' = (k :> Entry(Straight, m, h, None)) @@ unsuited
    /\ n' = n + 1 /\ m' = m + 1 /\ pos' = pos + 1
    /\ UNCHANGED <<phase, bits, notStraights>>
StraightsDone ==
    /\ phase = "straights" /\ pos = 10
    /\ Assert(n = WorstStraightFlush + 1 /\ m = WorstStraight + 1, "straights miscounted")
    /\ phase' = "flushes" /\ pos' = 0 /\ n' = WorstFullHouse + 1 /\ m' = WorstPair + 1
    /\ UNCHANGED <<bits, notStraights, flush, unsuited>>

\* all flushes and high cards in one step, from the best
FillFlushes ==
    /\ phase = "flushes"
    /\ LET q == Reverse(notStraights)
           fl == TLCEval([i \in DOMAIN q |-> <<ProductOfBits(q[i]),
                     Entry(Flush, n + i - 1, HighRankOfBits(q[i]), None)>>])
           hc == TLCEval([i \in DOMAIN q |-> <<ProductOfBits(q[i]),
                     Entry(HighCard, m + i - 1, HighRankOfBits(q[i]), None)>>])
       IN  /\ Assert(Fresh(fl, flush) /\ Fresh(hc, unsuited), "key used twice")
           /\ flush' = AsMap(fl) @@ flush
           /\ unsuited' = AsMap(hc) @@ unsuited
           /\ Assert(n + Len(q) = WorstFlush + 1 /\ m + Len(q) = WorstHighCard + 1, "flushes miscounted")
    /\ phase' = "quads" /\ pos' = 0 /\ n' = WorstStraightFlush + 1 /\ m' = 0
    /\ UNCHANGED <<bits, notStraights>>

\* the repeated-rank classes: the outer loop runs over the leading rank(s)
Batch(cat, keysAndRanks) ==
    [i \in DOMAIN keysAndRanks |->
        <<keysAndRanks[i][1], Entry(cat, n + i - 1, keysAndRanks[i][2], keysAndRanks[i][3])>>]
QuadsOf(r) == LET ks == Without(Down, {r}) IN
    [i \in DOMAIN ks |-> <<Product(<<r, r, r, r, ks[i]>>), r, None>>]
FullHousesOf(r) == LET ks == Without(Down, {r}) IN
    [i \in DOMAIN ks |-> <<Product(<<r, r, r, ks[i], ks[i]>>), r, ks[i]>>]
TripsOf(r) == LET ks == TLCEval(Combos(Without(Down, {r}), 2)) IN
    [i \in DOMAIN ks |-> <<Product(<<r, r, r>> \o ks[i]), r, None>>]
PairsOf(r) == LET ks == TLCEval(Combos(Without(Down, {r}), 3)) IN
    [i \in DOMAIN ks |-> <<Product(<<r, r>> \o ks[i]), r, None>>]
TwoPairCombos == TLCEval(Combos(Down, 2))
TwoPairsOf(p) == LET ks == Without(Down, Range(p)) IN
    [i \in DOMAIN ks |-> <<Product(<<p[1], p[1], p[2], p[2], ks[i]>>), p[1], p[2]>>]

Fill(ph, cat, items(_), len) ==
    /\ phase = ph /\ pos < len
    /\ LET items1 == TLCEval(items(pos + 1))   b == TLCEval(Batch(cat, items1)) IN
         /\ Assert(Fresh(b, unsuited), "key used twice")
         /\ unsuited' = AsMap(b) @@ unsuited
         /\ n' = n + Len(b)
    /\ pos' = pos + 1
    /\ UNCHANGED <<phase, bits, notStraights, m, flush>>
Done(ph, len, worst, nextPhase, start) ==
    /\ phase = ph /\ pos = len
    /\ Assert(n = worst + 1, "class miscounted")
    /\ phase' = nextPhase /\ pos' = 0 /\ n' = start
    /\ UNCHANGED <<bits, notStraights, m, flush, unsuited>>

FillQuads == Fill("quads", Quads, LAMBDA i : QuadsOf(Down[i]), 13)
QuadsDone == Done("quads", 13, WorstQuads, "fullhouses", WorstQuads + 1)
FillFullHouses == Fill("fullhouses", FullHouse, LAMBDA i : FullHousesOf(Down[i]), 13)
FullHousesDone == Done("fullhouses", 13, WorstFullHouse, "trips", WorstStraight + 1)
FillTrips == Fill("trips", Trips, LAMBDA i : TripsOf(Down[i]), 13)
TripsDone == Done("trips", 13, WorstTrips, "twopairs", WorstTrips + 1)
FillTwoPairs == Fill("twopairs", TwoPair, LAMBDA i : TwoPairsOf(TwoPairCombos[i]), Len(TwoPairCombos))
TwoPairsDone == Done("twopairs", Len(TwoPairCombos), WorstTwoPair, "pairs", WorstTwoPair + 1)
FillPairs == Fill("pairs", Pair, LAMBDA i : PairsOf(Down[i]), 13)
PairsDone == Done("pairs", 13, WorstPair, "done", 0)

Next == Generate \/ GenerateDone \/ FillStraight \/ StraightsDone \/ FillFlushes
        \/ FillQuads \/ QuadsDone \/ FillFullHouses \/ FullHousesDone \/ FillTrips \/ TripsDone
        \/ FillTwoPairs \/ TwoPairsDone \/ FillPairs \/ PairsDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

FiveBits == Cardinality(RanksOfBits(bits)) = 5
BitsAscend == \A i \in 1..(Len(notStraights) - 1) : i < Len(notStraights) - 1 \/ notStraights[i] < notStraights[i + 1]
\* a table as a set of (key, entry) pairs, and what the ladder says it should be
Pairs(t) == {<<k, t[k]>> : k \in DOMAIN t}
Expected(ladder, suited) ==
    {<<Product(ladder[i].ranks), Entry(ladder[i].cat, 7463 - i, ladder[i].r1, ladder[i].r2)>> :
        i \in {j \in 1..Len(ladder) : ladder[j].suited = suited}}
TablesComplete == phase = "done" =>
    /\ Cardinality(DOMAIN flush) + Cardinality(DOMAIN unsuited) = 7462
    /\ LET ladder == TLCEval(Steps) IN
         /\ Pairs(flush) = Expected(ladder, TRUE)
         /\ Pairs(unsuited) = Expected(ladder, FALSE)
Finishes == <>(phase = "done")
=============================================================================
