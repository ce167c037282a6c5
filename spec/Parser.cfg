SPECIFICATION Spec
CONSTANTS
  Alphabet = {"A", "T", "2", "c", "d", "a", "C", "1", " ", "é", "♠"}
  MaxLen = 3
INVARIANTS NeverReadsFar OneVerdict AsDeclared OnlyNames RoundTrip
PROPERTIES Terminates
POSTCONDITION Export
CHECK_DEADLOCK FALSE
