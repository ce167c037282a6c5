----------------------------- MODULE CardTable -----------------------------
(* The fifty-two cards as a walk through the deck, one card a step: checks   *)
(* that the vocabulary of Cards.tla is what it should be (names, texts and   *)
(* integers pairwise different, the integer's fields disjoint and            *)
(* recoverable), and writes the table the implementation is compared with.   *)
EXTENDS Cards, Json, IOUtils

VARIABLES at, seen
vars == <<at, seen>>
Init == at = 0 /\ seen = {0}
Turn == at < 51 /\ at' = at + 1 /\ seen' = seen \cup {at + 1}
Next == Turn
Spec == Init /\ [][Next]_vars

Bits(n, lo, width) == (n \div 2^lo) % 2^width

\* every field of the integer can be read back and says the same
LayoutReadsBack ==
    LET n == UniqueInt(at) IN
    /\ Bits(n, 0, 6) = Prime(RankOf(at))
    /\ Bits(n, 6, 2) = 0
    /\ Bits(n, 8, 4) = RankOf(at)
    /\ Bits(n, 12, 4) = SuitBit(SuitOf(at))
    /\ Bits(n, 16, 13) = 2^RankOf(at)
    /\ n \div 2^29 = 0
PrimesArePrime == \A r \in Ranks : \A d \in 2..(Prime(r) - 1) : Prime(r) % d # 0
PrimesAscend == \A r, s \in Ranks : r < s => Prime(r) < Prime(s)
NewNameAndInt == \A c \in seen \ {at} : /\ CardName(c) # CardName(at)
                                        /\ CardDisplay(c) # CardDisplay(at)
                                        /\ UniqueInt(c) # UniqueInt(at)
NameFindsCard == CardOfName[CardName(at)] = at
WholeDeckSeen == at = 51 => seen = Cards /\ Cardinality(CardNames) = 52

Row(c) == [name |-> CardName(c), display |-> CardDisplay(c), int |-> UniqueInt(c),
           rank |-> RankVariants[RankOf(c) + 1], suit |-> SuitVariants[SuitOf(c) + 1],
           rankchar |-> RankChar(RankOf(c)), suitchar |-> SuitChar(SuitOf(c)),
           suitsymbol |-> SuitSymbol(SuitOf(c)), rankno |-> RankOf(c), suitno |-> SuitOf(c)]
Export == TLCGet("level") >= 0 /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..52 |-> Row(i - 1)])
=============================================================================
