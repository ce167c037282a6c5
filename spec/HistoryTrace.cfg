SPECIFICATION TraceSpec
INVARIANT HInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
