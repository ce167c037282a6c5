SPECIFICATION GSpec
INVARIANT Dump
CHECK_DEADLOCK FALSE
