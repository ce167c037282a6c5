------------------------------- MODULE Lines -------------------------------
(* Lines a user types, as sequences of characters: words and numbers.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

(* white space (vertical tab, next line and the line and paragraph           *)
(* separators cannot be written here; no driver types them)                  *)
White == {" ", "\t", "\f", "\r", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", "　"}

\* the words between white space
Words(s) ==
    LET f(w, c) == IF c \in White THEN [done |-> IF w.cur = <<>> THEN w.done ELSE Append(w.done, w.cur), cur |-> <<>>]
                   ELSE [w EXCEPT !.cur = Append(@, c)]
        z == FoldLeft(f, [done |-> <<>>, cur |-> <<>>], Append(s, " "))
    IN  z.done

Digits10 == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitSet == Range(Digits10)
DigitValue(c) == (CHOOSE i \in 1..10 : Digits10[i] = c) - 1
RECURSIVE NoZeros(_)
NoZeros(s) == IF s # <<>> /\ Head(s) = "0" THEN NoZeros(Tail(s)) ELSE s

(* A whole number that fits a 64-bit word: its digits without leading zeros  *)
(* (so <<>> is zero).  A plus sign may come first.                           *)
Biggest == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE
                ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLeq(Tail(a), Tail(b))
Unsigned(s) == IF s # <<>> /\ Head(s) = "+" THEN Tail(s) ELSE s
IsNumber(s) ==
    LET d == Unsigned(s) IN
    /\ d # <<>>
    /\ \A i \in DOMAIN d : d[i] \in DigitSet
    /\ LET z == NoZeros(d) IN Len(z) < 20 \/ (Len(z) = 20 /\ LexLeq([i \in 1..20 |-> DigitValue(z[i])], Biggest))
Numeral(s) == NoZeros(Unsigned(s))
\* its value, or big when it has more than one digit
Big == 1000
NumberOf(s) == LET z == Numeral(s) IN IF z = <<>> THEN 0 ELSE IF Len(z) = 1 THEN DigitValue(z[1]) ELSE Big
=============================================================================
