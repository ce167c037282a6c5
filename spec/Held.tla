-------------------------------- MODULE Held --------------------------------
(* What using the library leaves behind.  The first calls of a kind may set  *)
(* something up once; from then on, whenever no result is held and no call   *)
(* is in progress, the process holds what it held before, up to a fixed      *)
(* Room, however many calls were made in between: memory, threads, open      *)
(* files.  Nothing is ever written to the standard output or error.          *)
EXTENDS Integers

CONSTANT Room
VARIABLES known,   \* the kinds of calls made so far
          fresh,   \* one was made for the first time since the last look
          base     \* what was held at the last look before which one was
hvars == <<known, fresh, base>>

HInit == /\ known = {} /\ fresh = TRUE
         /\ base = [memory |-> 0, threads |-> 0, files |-> 0, written |-> 0]
Calls(k) == known' = known \cup {k} /\ fresh' = (fresh \/ k \notin known) /\ UNCHANGED base
Allowed(m) == /\ m.written = 0
              /\ \/ fresh
                 \/ /\ m.memory <= base.memory + Room
                    /\ m.threads <= base.threads /\ m.files <= base.files
Look(m) == /\ Allowed(m)
           /\ base' = (IF fresh THEN m ELSE base) /\ fresh' = FALSE /\ UNCHANGED known
=============================================================================
