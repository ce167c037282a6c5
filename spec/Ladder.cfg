SPECIFICATION Spec
INVARIANTS HereWeakest HereStrongest DefiningRanksPresent PairsDescend SuitedOnlyFlushes ClassRecoverable KnownTotals KnownStrengths
PROPERTIES Improves
POSTCONDITION Export
CHECK_DEADLOCK FALSE
