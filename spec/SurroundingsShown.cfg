SPECIFICATION MSpec
CONSTANTS
  Names = {"a", "b"}
  Values = {0, 1}
  Calls = {"c", "d"}
  MostPrograms = 2
  Looks = TRUE
  Hidden = FALSE
INVARIANTS Quiet ShownIsFound
CHECK_DEADLOCK FALSE
