-------------------------------- MODULE Repl --------------------------------
(* The evaluation prompt.  Each line is answered by itself; nothing of one    *)
(* line is left for the next.                                                *)
EXTENDS PokerLib, Lines

VARIABLE open         \* whether the prompt still listens
rvars == <<open>>
RInit == open = TRUE

Help == <<"Enter a list of 5 or more space-separated cards to be evaluated as a hand.",
          "Cards are two character strings, where the first character represents",
          "the card rank, and the second character represents the card suit.",
          "Valid ranks: one of [23456789TJQKA]",
          "Valid suits: one of [chsd]",
          "Example: poker> Tc Jc Qc Kc Ac">>
Greeting == <<"Welcome to the poker hand REPL!", "For help, enter \"help\". To quit, enter \"quit\" or press CTRL+C.">>
IsText(s, t) == Text(s) = t

(* A message listing exactly the cards of S, each once, in any order.        *)
Chars(t) == [i \in 1..Len(t) |-> SubSeq(t, i, i)]
ListsCards(t, S) ==
    LET k == Len(DupPrefix)
        w == Words(Chars(SubSeq(t, k + 1, Len(t))))
        names == [i \in DOMAIN w |-> Text(w[i])]
    IN  /\ Len(t) > k
        /\ t = DupPrefix \o Join(names, " ")
        /\ Len(names) = Cardinality(S)
        /\ Range(names) = {CardName(c) : c \in S}

(* the one answer to a line: the lines shown.  For repeated cards the order   *)
(* of the list is open, so an answer is a predicate on what was shown.        *)
Answers(s, shown) ==
    IF IsText(s, "help") THEN shown = Help
    ELSE LET w == TLCEval(Words(s))
             bad == FirstFailure(w)
         IN  IF bad # {} THEN LET first == w[Min(bad)] IN shown = <<ParseMessage(ParseOut(first), Len(first))>>
             ELSE LET cards == TLCEval([i \in DOMAIN w |-> CardOfName[ParseOut(w[i]).card]])
                      out == TLCEval(EvalOut(cards))
                  IN  CASE out.t = "ok" -> shown = <<out.name>>
                        [] out.t = "size" -> shown = <<SizeMessage(out.n)>>
                        [] out.t = "dup" -> Len(shown) = 1 /\ ListsCards(shown[1], Repeated(cards))
Answer(s, shown) == open /\ ~IsText(s, "quit") /\ Answers(s, shown) /\ UNCHANGED rvars
Stop(s) == open /\ IsText(s, "quit") /\ open' = FALSE
NoMoreInput == open /\ open' = FALSE

\* how many lines the answer takes: known before it is seen
Height(s) == IF IsText(s, "help") THEN Len(Help) ELSE 1
=============================================================================
