SPECIFICATION Spec
INVARIANTS LayoutReadsBack PrimesArePrime PrimesAscend NewNameAndInt NameFindsCard WholeDeckSeen
POSTCONDITION Export
CHECK_DEADLOCK FALSE
