SPECIFICATION MSpec
CONSTANTS
  Names = {"a", "b"}
  Values = {0, 1}
  Calls = {"c", "d"}
  MostPrograms = 2
  Looks = TRUE
  Hidden = TRUE
INVARIANTS NeverWrong
CHECK_DEADLOCK FALSE
