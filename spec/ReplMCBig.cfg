SPECIFICATION MSpec
CONSTANT MaxLines = 3
INVARIANTS EveryLineAnswered OneAnswer ListensOn HeightIsKnown
CHECK_DEADLOCK FALSE
