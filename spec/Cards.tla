------------------------------- MODULE Cards -------------------------------
(* The vocabulary every other module shares: ranks, suits, cards, their      *)
(* characters, names and the documented integer layout.                      *)
(*                                                                           *)
(* A rank is 0..12 (two .. ace), a suit 0..3 in the library's listing order  *)
(* (clubs, hearts, spades, diamonds), a card is 4*rank + suit.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Ranks == 0..12
Suits == 0..3
Cards == 0..51

Two == 0   Five == 3   Seven == 5   Ten == 8   Jack == 9
Queen == 10   King == 11   Ace == 12

RankOf(c) == c \div 4
SuitOf(c) == c % 4
MkCard(r, s) == 4 * r + s

RankChars == <<"2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A">>
SuitChars == <<"c", "h", "s", "d">>
SuitSymbols == <<"♣", "♥", "♠", "♦">>
RankChar(r) == RankChars[r + 1]
SuitChar(s) == SuitChars[s + 1]
SuitSymbol(s) == SuitSymbols[s + 1]

RankVariants == <<"Two", "Three", "Four", "Five", "Six", "Seven", "Eight",
                  "Nine", "Ten", "Jack", "Queen", "King", "Ace">>
SuitVariants == <<"Clubs", "Hearts", "Spades", "Diamonds">>

RankNames == <<"two", "three", "four", "five", "six", "seven", "eight",
               "nine", "ten", "jack", "queen", "king", "ace">>
RankPlurals == <<"twos", "threes", "fours", "fives", "sixes", "sevens", "eights",
                 "nines", "tens", "jacks", "queens", "kings", "aces">>
RankName(r) == RankNames[r + 1]
RankPlural(r) == RankPlurals[r + 1]

CardName(c) == RankChar(RankOf(c)) \o SuitChar(SuitOf(c))
CardDisplay(c) == "[ " \o RankChar(RankOf(c)) \o SuitSymbol(SuitOf(c)) \o " ]"

CardNames == {CardName(c) : c \in Cards}
\* name -> card, tabulated once
CardOfName == TLCEval([n \in CardNames |-> CHOOSE c \in Cards : CardName(c) = n])
CardsOf(names) == [i \in DOMAIN names |-> CardOfName[names[i]]]
NamesOf(cards) == [i \in DOMAIN cards |-> CardName(cards[i])]

-----------------------------------------------------------------------------
(* The documented bit layout of a card's integer:                            *)
(*   xxxbbbbb bbbbbbbb cdhsrrrr xxpppppp                                     *)
Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41>>
SuitBits == <<8, 2, 1, 4>>                        \* clubs, hearts, spades, diamonds
Prime(r) == Primes[r + 1]
SuitBit(s) == SuitBits[s + 1]
UniqueInt(c) == LET r == RankOf(c) IN
    2^(16 + r) + SuitBit(SuitOf(c)) * 2^12 + r * 2^8 + Prime(r)

-----------------------------------------------------------------------------
AllDistinct(q) == Cardinality(Range(q)) = Len(q)
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN ""
                ELSE IF Len(q) = 1 THEN q[1]
                ELSE q[1] \o sep \o Join(Tail(q), sep)
=============================================================================
