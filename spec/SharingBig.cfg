SPECIFICATION SSpec
CONSTANTS
  Threads = {t1, t2, t3}
  EvIds = {e1, e2}
  Inputs = 5
  MostCalls = 2
  Racy = FALSE
SYMMETRY Alike
INVARIANTS HInv AnswersAreSequential CallsOnLiveEvaluators NeverBlocked
CHECK_DEADLOCK FALSE
