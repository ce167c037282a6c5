SPECIFICATION MCSpec
CONSTANTS
  Part = "batches"
  MaxCalls = 5
  MaxBatch = 3
  Deck = {"2c", "2h", "Ks", "Td"}
  DeckNames <- SmallDeck
  DeckSize <- SmallSize
INVARIANTS LibInv OwnText HintsHold NeverStuck
PROPERTIES AskedOnly FirstFailureWins
CHECK_DEADLOCK FALSE
