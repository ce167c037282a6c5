SPECIFICATION MSpec
CONSTANTS
  Names = {"a", "b"}
  Values = {0, 1}
  Calls = {"c", "d"}
  MostPrograms = 4
  Looks = TRUE
  Hidden = TRUE
INVARIANTS Quiet HiddenIsFound
CHECK_DEADLOCK FALSE
