SPECIFICATION Spec
INVARIANTS FiveBits BitsAscend TablesComplete
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
