SPECIFICATION Spec
CONSTANTS
  Kinds = {"good1", "good2", "long", "badrank", "badsuit"}
  MaxLen = 4
INVARIANTS PulledInRange CollectIsFirstFailure DrainKeepsFailures
PROPERTIES Lazy NothingAhead Ends
CHECK_DEADLOCK FALSE
