SPECIFICATION TraceSpec
CONSTANTS
  StartCredits = 100
  MaxWager = 5
INVARIANTS CreditsNeverNegative EveryCardComes
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
