SPECIFICATION MSpec
CONSTANTS
  Room = 1
  Threads = {1, 2, 3}
  MostCalls = 9
  MostKept = 2
  Remembers = FALSE
INVARIANTS GivenBack Accounted
CHECK_DEADLOCK FALSE
