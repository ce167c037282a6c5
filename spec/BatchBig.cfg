SPECIFICATION Spec
CONSTANTS
  Kinds = {"good1", "good2", "long", "badrank", "badsuit", "empty"}
  MaxLen = 5
INVARIANTS PulledInRange CollectIsFirstFailure DrainKeepsFailures
PROPERTIES Lazy NothingAhead Ends
CHECK_DEADLOCK FALSE
