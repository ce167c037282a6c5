------------------------------- MODULE Jacks -------------------------------
(* The video-poker example: one player, one deck, credits, two prompts.       *)
(*                                                                           *)
(* A line at the wager prompt is a bet, a refusal or leaving; a line at the  *)
(* swap prompt is a swap, a refusal or leaving.  Which cards come is open,   *)
(* everything else is determined.                                            *)
EXTENDS Rules, Lines

CONSTANTS StartCredits, MaxWager

VARIABLES phase,     \* "wager": at the wager prompt, "swap": at the swap prompt, "over"
          credits, wager,
          hand       \* the five cards on the table, <<>> between rounds
jvars == <<phase, credits, wager, hand>>

JInit == phase = "wager" /\ credits = StartCredits /\ wager = 0 /\ hand = <<>>

-----------------------------------------------------------------------------
(* The payout table *)
Winnings(w, c) ==
    CASE c.cat = Pair -> IF c.r1 >= Jack THEN w ELSE 0
      [] c.cat = TwoPair -> 2 * w
      [] c.cat = Trips -> 3 * w
      [] c.cat = Straight -> 4 * w
      [] c.cat = Flush -> 6 * w
      [] c.cat = FullHouse -> 9 * w
      [] c.cat = Quads -> 25 * w
      [] c.cat = StraightFlush -> IF ~IsRoyal(c) THEN 50 * w
                                  ELSE IF w = 5 THEN 4000 ELSE 250 * w
      [] OTHER -> 0

(* What a line means at each prompt *)
Quit == <<"q", "u", "i", "t">>
Text(s) == FoldLeft(LAMBDA a, c : a \o c, "", s)
Refuse(m) == [ok |-> FALSE, says |-> m]
WagerSays(s, cr) ==
    LET n == NumberOf(s) IN
    IF ~IsNumber(s) THEN Refuse({"Invalid input '" \o Text(s) \o "'. Expected wager from 1 to " \o ToString(MaxWager) \o "."})
    ELSE IF n = 0 THEN Refuse({"Sorry, you can't bet 0 credits!"})
    ELSE IF n > MaxWager THEN Refuse({"Invalid wager amount '" \o Text(Numeral(s)) \o "'. Expected amount from 1 to " \o ToString(MaxWager) \o "."})
    ELSE IF n > cr THEN Refuse({"Not enough credits! Got " \o ToString(n) \o " but you have " \o ToString(cr) \o "."})
    ELSE [ok |-> TRUE, wager |-> n]

\* a set of one or two values, in either order
Orders(S) == {Join([i \in DOMAIN q |-> ToString(q[i])], " ") : q \in SetToSeqs(S)}
SwapSays(s) ==
    LET w == Words(s)
        n == TLCEval([i \in DOMAIN w |-> IF IsNumber(w[i]) THEN NumberOf(w[i]) ELSE Big])
        twice == {v \in Range(n) : Cardinality({i \in DOMAIN n : n[i] = v}) > 1}
        error == "Error parsing input '" \o Text(s) \o "'. "
    IN  IF \E i \in DOMAIN w : ~IsNumber(w[i]) THEN Refuse({error \o "Expected space-separated list of card numbers to swap."})
        ELSE IF \E i \in DOMAIN n : n[i] \notin 1..5 THEN Refuse({error \o "Not all listed numbers are between 1 and 5."})
        ELSE IF Len(n) > 5 THEN Refuse({error \o "Specified more than 5 cards to swap."})
        ELSE IF twice # {} THEN Refuse({"Cannot provide duplicate cards to swap: " \o o \o "." : o \in Orders(twice)})
        ELSE [ok |-> TRUE, swaps |-> Range(n)]

-----------------------------------------------------------------------------
IsHand(h) == Len(h) = 5 /\ Range(h) \subseteq Cards /\ AllDistinct(h)
HandClass(h) == ClassOf(Range(h))

RefusedAtWager(s) == /\ phase = "wager" /\ s # Quit /\ ~WagerSays(s, credits).ok
                     /\ UNCHANGED jvars
Bet(s, h) == /\ phase = "wager" /\ s # Quit /\ WagerSays(s, credits).ok
             /\ IsHand(h)
             /\ wager' = WagerSays(s, credits).wager
             /\ credits' = credits - wager'
             /\ hand' = h /\ phase' = "swap"
RefusedAtSwap(s) == /\ phase = "swap" /\ s # Quit /\ ~SwapSays(s).ok
                    /\ UNCHANGED jvars
(* Exactly the chosen positions are dealt anew, from all cards not kept: the *)
(* discards go back into the deck first.                                     *)
Deals(h, swaps) == IsHand(h) /\ \A i \in 1..5 : i \notin swaps => h[i] = hand[i]
Finish(s, h) == /\ phase = "swap" /\ s # Quit /\ SwapSays(s).ok
                /\ Deals(h, SwapSays(s).swaps)
                /\ LET win == Winnings(wager, HandClass(h))
                   IN  credits' = credits + (IF win > 0 THEN wager + win ELSE 0)
                /\ phase' = IF credits' = 0 THEN "over" ELSE "wager"
                /\ wager' = 0 /\ hand' = <<>>
Leave(s) == /\ phase # "over" /\ s = Quit
            /\ phase' = "over" /\ UNCHANGED <<credits, wager, hand>>
EndOfInput == /\ phase # "over"
              /\ phase' = "over" /\ UNCHANGED <<credits, wager, hand>>

-----------------------------------------------------------------------------
(* What the player sees after each step *)
Welcome == <<"Welcome to Jacks or Better video poker!", "To quit, enter \"quit\" or press CTRL+C.">>
AtWager(cr) == [ask |-> "wager", credits |-> cr, max |-> MaxWager, ended |-> FALSE]
AtSwap == [ask |-> "swap", ended |-> FALSE]
AtEnd == [ask |-> "none", ended |-> TRUE, exit |-> 0]
Remark(first, second) ==
    IF ClassKey(HandClass(second)) > ClassKey(HandClass(first)) THEN "better"
    ELSE IF ClassKey(HandClass(second)) < ClassKey(HandClass(first)) THEN "worse" ELSE "none"
SeenAtStart == AtWager(StartCredits) @@ [says |-> {Welcome}]
SeenRefused == (IF phase = "wager" THEN AtWager(credits) ELSE AtSwap)
SeenBet(h) == AtSwap @@ [says |-> {<<>>}, hand |-> NamesOf(h), name |-> HandName(HandClass(h)), marks |-> "(1) (2) (3) (4) (5)"]
SeenFinish(h, cr) ==
    (IF cr = 0 THEN AtEnd @@ [gameover |-> TRUE] ELSE AtWager(cr) @@ [gameover |-> FALSE])
    @@ [says |-> {<<>>}, hand2 |-> NamesOf(h), name2 |-> HandName(HandClass(h)), remark |-> Remark(hand, h),
        winnings |-> Winnings(wager, HandClass(h))]
SeenLeave == AtEnd @@ [says |-> {<<>>}]
=============================================================================
