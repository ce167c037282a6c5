SPECIFICATION Spec
CONSTANT N = 8
INVARIANTS IsPermutation DrawsRecoverable EveryDrawCounts Remember
PROPERTIES Terminates
POSTCONDITION EveryDeckReached
CHECK_DEADLOCK FALSE
