SPECIFICATION TraceSpec
INVARIANT LibInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
