------------------------------- MODULE Rules -------------------------------
(* The rules of poker, written from the rules and not from the library's     *)
(* algorithm (no primes, no bit tricks, no tables): the class of a five-card *)
(* hand, the strength order with all kickers, the best five of more cards,   *)
(* and the English name of a hand.                                           *)
EXTENDS Cards

(* ---- classes ---- *)
HighCard == 0   Pair == 1   TwoPair == 2   Trips == 3   Straight == 4
Flush == 5   FullHouse == 6   Quads == 7   StraightFlush == 8
ClassNames == <<"HighCard", "Pair", "TwoPair", "ThreeOfAKind", "Straight",
                "Flush", "FullHouse", "FourOfAKind", "StraightFlush">>
None == -1

(* ---- rank patterns ----                                                   *)
(* A pattern is the rank multiset of five cards, as a function rank -> count *)
Pattern(H) == [r \in Ranks |-> Cardinality({s \in Suits : MkCard(r, s) \in H})]
WithCount(p, n) == {r \in Ranks : p[r] = n}

\* ranks of a set, highest first
RECURSIVE Desc(_)
Desc(S) == IF S = {} THEN <<>> ELSE LET m == Max(S) IN <<m>> \o Desc(S \ {m})

\* the distinct ranks of a pattern: larger groups first, then higher ranks first
Groups(p) == Desc(WithCount(p, 4)) \o Desc(WithCount(p, 3))
             \o Desc(WithCount(p, 2)) \o Desc(WithCount(p, 1))

Wheel == {Two, 1, 2, Five, Ace}
\* the high rank of the straight formed by the five distinct ranks D, or None
StraightHigh(D) ==
    IF Cardinality(D) # 5 THEN None
    ELSE IF D = Wheel THEN Five
    ELSE IF Max(D) - Min(D) = 4 THEN Max(D)
    ELSE None

(* ---- the class of a five-card pattern, suited or not ----                 *)
(* r1, r2: the defining ranks (None when a class has fewer)                  *)
Class(p, suited) ==
    LET g == Groups(p)
        sh == StraightHigh(WithCount(p, 1))
        c(cat, r1, r2) == [cat |-> cat, r1 |-> r1, r2 |-> r2]
    IN  CASE sh # None /\ suited            -> c(StraightFlush, sh, None)
          [] WithCount(p, 4) # {}           -> c(Quads, g[1], None)
          [] WithCount(p, 3) # {} /\ WithCount(p, 2) # {} -> c(FullHouse, g[1], g[2])
          [] suited                         -> c(Flush, g[1], None)
          [] sh # None                      -> c(Straight, sh, None)
          [] WithCount(p, 3) # {}           -> c(Trips, g[1], None)
          [] Cardinality(WithCount(p, 2)) = 2 -> c(TwoPair, g[1], g[2])
          [] WithCount(p, 2) # {}           -> c(Pair, g[1], None)
          [] OTHER                          -> c(HighCard, g[1], None)

(* ---- strength ----                                                        *)
(* What the hand is compared by: class, then the ranks of its groups in      *)
(* order (straights: the high rank only).  Compared lexicographically.       *)
TieBreak(p, suited) ==
    LET k == Class(p, suited).cat
    IN  IF k \in {Straight, StraightFlush} THEN <<Class(p, suited).r1>> ELSE Groups(p)

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> \/ b = <<>> THEN FALSE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
                 ELSE LexLess(Tail(a), Tail(b))
Rank5(p, suited) == <<Class(p, suited).cat>> \o TieBreak(p, suited)
Beats(p, sp, q, sq) == LexLess(Rank5(q, sq), Rank5(p, sp))

(* the same order as one number (digits base 13), used where many are compared *)
RECURSIVE Digits(_, _, _)
Digits(q, n, acc) == IF n = 0 THEN acc
                     ELSE IF q = <<>> THEN Digits(q, n - 1, acc * 13)
                     ELSE Digits(Tail(q), n - 1, acc * 13 + Head(q))
Strength(p, suited) == Digits(TieBreak(p, suited), 5, Class(p, suited).cat)
CatOfStrength(k) == k \div (13^5)

(* ---- five-card hands as sets of cards ---- *)
SuitedHand(H) == Cardinality({SuitOf(c) : c \in H}) = 1
ClassOf(H) == Class(Pattern(H), SuitedHand(H))
StrengthOf(H) == Strength(Pattern(H), SuitedHand(H))

(* ---- the best hand among any number (>= 5) of distinct cards ----          *)
(* By definition: the maximum over all five-card subsets.                     *)
FiveSubsets(S) == {H \in SUBSET S : Cardinality(H) = 5}
BestByDefinition(S) == Max({StrengthOf(H) : H \in FiveSubsets(S)})

(* Directly, without enumerating subsets: for every class, the strongest hand *)
(* of that class the cards allow.  TLC checks that both agree (BestOfN.tla).  *)
RanksIn(S) == {RankOf(c) : c \in S}
CountIn(S, r) == Cardinality({c \in S : RankOf(c) = r})
OfSuit(S, s) == {c \in S : SuitOf(c) = s}
StraightTops(D) ==
    {h \in Five..Ace : IF h = Five THEN Wheel \subseteq D ELSE (h - 4)..h \subseteq D}
Top(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
Key(cat, tb) == Digits(tb, 5, cat)
BestDirect(S) ==
    LET D == RanksIn(S)
        AtLeast(n) == {r \in D : CountIn(S, r) >= n}
        sf == UNION {StraightTops(RanksIn(OfSuit(S, s))) : s \in Suits}
        fl == {s \in Suits : Cardinality(OfSuit(S, s)) >= 5}
        q4 == AtLeast(4)   q3 == AtLeast(3)   q2 == AtLeast(2)
        st == StraightTops(D)
        m4 == Max(q4)   m3 == Max(q3)   m2 == Max(q2)
    IN  CASE sf # {} -> Key(StraightFlush, <<Max(sf)>>)
          [] q4 # {} -> Key(Quads, <<m4>> \o Top(Desc(D \ {m4}), 1))
          [] q3 # {} /\ q2 \ {m3} # {} ->
                Key(FullHouse, <<m3, Max(q2 \ {m3})>>)
          [] fl # {} -> Max({Key(Flush, Top(Desc(RanksIn(OfSuit(S, s))), 5)) : s \in fl})
          [] st # {} -> Key(Straight, <<Max(st)>>)
          [] q3 # {} -> Key(Trips, <<m3>> \o Top(Desc(D \ {m3}), 2))
          [] Cardinality(q2) >= 2 ->
                LET lo == Max(q2 \ {m2})
                IN  Key(TwoPair, <<m2, lo>> \o Top(Desc(D \ {m2, lo}), 1))
          [] q2 # {} -> Key(Pair, <<m2>> \o Top(Desc(D \ {m2}), 3))
          [] OTHER -> Key(HighCard, Top(Desc(D), 5))
Best(S) == BestDirect(S)

(* class of a strength number: its defining ranks are its leading digits *)
Digit(k, i) == (k \div (13^(5 - i))) % 13
ClassOfStrength(k) ==
    LET cat == CatOfStrength(k)
    IN  [cat |-> cat, r1 |-> Digit(k, 1),
         r2 |-> IF cat \in {TwoPair, FullHouse} THEN Digit(k, 2) ELSE None]

IsRoyal(class) == class.cat = StraightFlush /\ class.r1 = Ace

(* class values are ordered by class, then by defining ranks *)
ClassKey(class) == (class.cat * 14 + (class.r1 + 1)) * 14 + (class.r2 + 1)

(* ---- names ---- *)
HandName(class) ==
    LET a == class.r1   b == class.r2
    IN  CASE class.cat = HighCard  -> "High card, " \o RankName(a)
          [] class.cat = Pair      -> "Pair, " \o RankPlural(a)
          [] class.cat = TwoPair   -> "Two pair, " \o RankPlural(a) \o " and " \o RankPlural(b)
          [] class.cat = Trips     -> "Three of a kind, " \o RankPlural(a)
          [] class.cat = Straight  -> "Straight, " \o RankName(a) \o "-high"
          [] class.cat = Flush     -> "Flush, " \o RankName(a) \o "-high"
          [] class.cat = FullHouse -> "Full house, " \o RankPlural(a) \o " over " \o RankPlural(b)
          [] class.cat = Quads     -> "Four of a kind, " \o RankPlural(a)
          [] class.cat = StraightFlush ->
                IF a = Ace THEN "Royal flush" ELSE "Straight flush, " \o RankName(a) \o "-high"
=============================================================================
