SPECIFICATION MSpec
CONSTANTS
  Room = 1
  Threads = {1, 2}
  MostCalls = 7
  MostKept = 2
  Remembers = FALSE
INVARIANTS GivenBack Accounted
CHECK_DEADLOCK FALSE
