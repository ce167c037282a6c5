--------------------------- MODULE SurroundingsMC ----------------------------
(* All programs in all surroundings: every assignment of values to a few     *)
(* names, and libraries that look at some of them in some calls.  A library  *)
(* that looks at none answers alike everywhere; one that looks at a name     *)
(* either is seen to (asked), or, where the looking does not show (Hidden),  *)
(* is told from a good one by two surroundings that differ in that name.     *)
EXTENDS Surroundings, FiniteSets

CONSTANTS Names, Values, Calls, MostPrograms, Looks, Hidden
\* which names each call looks at: any way of looking, or none
Libraries == IF Looks THEN [Calls -> SUBSET Names] ELSE [Calls -> {{}}]
Worlds == [Names -> Values]

VARIABLES library, world, programs, seen, wrong
mvars == <<avars, library, world, programs, seen, wrong>>

AnswerOf(c, w) == <<c, [n \in library[c] |-> w[n]]>>
AskedOf(c) == [a \in Asks |-> IF ~Hidden /\ a = "environment" THEN Cardinality(library[c]) ELSE 0]
MInit == /\ AInit /\ library \in Libraries /\ world \in Worlds
         /\ programs = 0 /\ seen = {} /\ wrong = FALSE
Program == /\ programs < MostPrograms /\ programs' = programs + 1
           /\ world' \in Worlds /\ Enter("a program")
           /\ UNCHANGED <<library, seen, wrong>>
Called(c) == /\ around # "none" /\ ~wrong /\ seen' = seen \cup {<<c, world>>}
             /\ IF ENABLED Answered(c, AnswerOf(c, world), AskedOf(c))
                THEN Answered(c, AnswerOf(c, world), AskedOf(c)) /\ UNCHANGED wrong
                ELSE wrong' = TRUE /\ UNCHANGED avars
             /\ UNCHANGED <<library, world, programs>>
MNext == Program \/ \E c \in Calls : Called(c)
MSpec == MInit /\ [][MNext]_mvars

\* no alarm about a library that looks at nothing
Quiet == (\A c \in Calls : library[c] = {}) => ~wrong
\* looking that shows is found by the first call that looks
ShownIsFound == ~Hidden => (wrong <=> \E s \in seen : library[s[1]] # {})
\* other looking is found by two programs that differ in what was looked at
HiddenIsFound == Hidden => (wrong <=> \E s, t \in seen : /\ s[1] = t[1]
                                                        /\ \E n \in library[s[1]] : s[2][n] # t[2][n])
NeverWrong == ~wrong
=============================================================================
