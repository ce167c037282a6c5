SPECIFICATION TraceSpec
CONSTANT Room = 65536
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
