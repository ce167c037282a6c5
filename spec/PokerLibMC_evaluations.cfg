SPECIFICATION MCSpec
CONSTANTS
  Part = "evaluations"
  MaxCalls = 4
  MaxBatch = 3
  Deck = {"2c", "2h", "Ks", "Td"}
  DeckNames <- SmallDeck
  DeckSize <- SmallSize
INVARIANTS LibInv OneAnswer EvaluatorsEqual OneStory NothingBeyondBounds SortedById NeverStuck
PROPERTIES KeptStay
CHECK_DEADLOCK FALSE
