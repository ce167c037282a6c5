SPECIFICATION Spec
INVARIANTS Count EveryNameOnce RoyalIsLast RoyalNamed
PROPERTIES Ordered
POSTCONDITION Export
CHECK_DEADLOCK FALSE
