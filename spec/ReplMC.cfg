SPECIFICATION MSpec
CONSTANT MaxLines = 2
INVARIANTS EveryLineAnswered OneAnswer ListensOn HeightIsKnown
CHECK_DEADLOCK FALSE
