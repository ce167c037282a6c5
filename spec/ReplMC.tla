------------------------------- MODULE ReplMC -------------------------------
(* Repl over a vocabulary of lines: every sequence of lines up to a length.   *)
(* Checks that the specification itself answers each line in exactly one way  *)
(* and that the answer to a line does not depend on the lines before.         *)
EXTENDS Repl

CONSTANTS MaxLines
VARIABLES n, last,       \* lines typed so far; the last line and its answer
          told           \* line -> its possible answers, worked out once
C(t) == [i \in 1..Len(t) |-> SubSeq(t, i, i)]
Vocabulary == {C(t) : t \in {"", " ", "help", "help ", "quit", "quit ", "As", "As Kd", "As Ks Qs Js Ts", "Ts  As Ks\tQs Js ", "2c 3c 4c 5c Ac 6d",
    "As As Ks Ks 2c 2c", "As As x", "1s As As", "Ax 2c", "Asd", "2c 7d 5h 4h 3s", "2c 2d 2h 2s Ac Ad Ah", "as ks qs js ts", "As,Ks", "quit quit"}}
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Perms(S \ {x})} : x \in S}
\* the answer, found and not guessed: try what the library could say
Candidates(s) ==
    LET w == Words(s)   bad == FirstFailure(w) IN
    {Help, Greeting}
    \cup (IF bad # {} THEN {<<ParseMessage(ParseOut(w[i]), Len(w[i]))>> : i \in bad}
          ELSE LET cards == [i \in DOMAIN w |-> CardOfName[ParseOut(w[i]).card]] IN
               {<<SizeMessage(k)>> : k \in 0..8}
               \cup {<<DupPrefix \o Join([i \in DOMAIN q |-> CardName(q[i])], " ")>> : q \in Perms(Repeated(cards))}
               \cup (IF EvalFails(cards) THEN {} ELSE {<<EvalOut(cards).name>>}))
ToldOf == [s \in Vocabulary |-> TLCEval({a \in Candidates(s) : Answers(s, a)})]
Told(s) == told[s]
MInit == LibInit /\ RInit /\ n = 0 /\ last = <<>> /\ told = ToldOf
MNext == /\ n < MaxLines
         /\ UNCHANGED <<libvars, told>>
         /\ n' = n + 1
         /\ \E s \in Vocabulary :
              \/ \E a \in Told(s) : Answer(s, a) /\ last' = <<s, a>>
              \/ Stop(s) /\ last' = <<s>>
MSpec == MInit /\ [][MNext]_<<libvars, rvars, n, last, told>>
\* every line but quit is answered; in one way, unless repeated cards are listed
EveryLineAnswered == n = 0 => \A s \in Vocabulary : IsText(s, "quit") \/ Told(s) # {}
OneAnswer == n = 0 => \A s \in Vocabulary : Cardinality({Len(a) : a \in Told(s)}) <= 1
\* whatever has been typed, the prompt listens until told to stop
ListensOn == open <=> (last = <<>> \/ Len(last) = 2)
HeightIsKnown == n = 0 => \A s \in Vocabulary : \A a \in Told(s) : Len(a) = Height(s)
=============================================================================
