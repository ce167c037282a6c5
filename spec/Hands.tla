------------------------------- MODULE Hands -------------------------------
(* All five-card hands up to the choice of suits - 7462 of them - sorted     *)
(* from the weakest to the strongest.                                        *)
EXTENDS Rules

Patterns ==
    LET RECURSIVE build(_, _)
        \* all functions on ranks r.. with total n, counts at most 4
        build(r, n) == IF r = 13 THEN (IF n = 0 THEN {<<>>} ELSE {})
                       ELSE UNION {{<<k>> \o q : q \in build(r + 1, n - k)} :
                                     k \in 0..(IF n < 4 THEN n ELSE 4)}
    IN  {[r \in Ranks |-> q[r + 1]] : q \in build(0, 5)}
Distinct(p) == \A r \in Ranks : p[r] <= 1

Choose4 == <<1, 4, 6, 4, 1>>                       \* 4 choose 0..4
RECURSIVE Prod(_, _)
Prod(p, r) == IF r = 13 THEN 1 ELSE Choose4[p[r] + 1] * Prod(p, r + 1)
\* how many concrete hands have this pattern and suitedness
Multiplicity(p, suited) == IF suited THEN 4
                           ELSE IF Distinct(p) THEN Prod(p, 0) - 4 ELSE Prod(p, 0)

RanksDesc(p) == LET g == Desc({r \in Ranks : p[r] > 0})
                    RECURSIVE rep(_)
                    rep(q) == IF q = <<>> THEN <<>>
                              ELSE [i \in 1..p[Head(q)] |-> Head(q)] \o rep(Tail(q))
                IN  rep(g)

Step(p, suited) ==
    LET k == Class(p, suited)
    IN  [ranks |-> RanksDesc(p), suited |-> suited, cat |-> k.cat, r1 |-> k.r1, r2 |-> k.r2,
         key |-> Strength(p, suited), rank5 |-> Rank5(p, suited), name |-> HandName(k),
         mult |-> Multiplicity(p, suited), ckey |-> ClassKey(k)]

Steps == TLCEval(SetToSortSeq(
            {Step(p, FALSE) : p \in Patterns}
              \cup {Step(p, TRUE) : p \in {q \in Patterns : Distinct(q)}},
            LAMBDA a, b : a.key < b.key))
=============================================================================
