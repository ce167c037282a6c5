SPECIFICATION MCSpec
CONSTANTS
  Part = "shuffles"
  MaxCalls = 4
  MaxBatch = 3
  Deck = {"2c", "2h", "Ks"}
  DeckNames <- SmallDeck
  DeckSize <- SmallSize
INVARIANTS LibInv Shuffled ShufflesDiffer NeverStuck
PROPERTIES SameStateSameDeck
CHECK_DEADLOCK FALSE
