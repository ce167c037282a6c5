----------------------------- MODULE Surroundings ----------------------------
(* The same calls made by programs in different surroundings.  A call        *)
(* answers what it answered in every program before; and while it lasts the  *)
(* library asks the system for nothing: neither variables of the environment,*)
(* nor the clock, files, the process, or the network.                        *)
EXTENDS Integers, TLC

Asks == {"environment", "clock", "files", "process", "network"}
VARIABLES said,    \* call -> the answer to it in the programs so far
          around   \* the surroundings of the program that is running
avars == <<said, around>>

AInit == said = <<>> /\ around = "none"
Enter(w) == around' = w /\ UNCHANGED said
Answered(c, out, asked) ==
    /\ around # "none"
    /\ \A a \in Asks : asked[a] = 0
    /\ c \in DOMAIN said => said[c] = out
    /\ said' = (c :> out) @@ said
    /\ UNCHANGED around
=============================================================================
