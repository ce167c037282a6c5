SPECIFICATION Spec
CONSTANTS
  PoolRanks = {0, 1, 2, 3, 11, 12}
  PoolSuits = {0, 1}
  Sizes = {6, 7, 8}
  Mixed = TRUE
INVARIANTS TypeOK NeverTwice AllVisited FindsTheBest ClosedForm Monotone ClassIsOfBest
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
