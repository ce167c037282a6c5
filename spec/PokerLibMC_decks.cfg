SPECIFICATION MCSpec
CONSTANTS
  Part = "decks"
  MaxCalls = 6
  MaxBatch = 3
  Deck = {"2c", "2h", "Ks"}
  DeckNames <- SmallDeck
  DeckSize <- SmallSize
INVARIANTS LibInv EachCardOnce OneOrder OneWhole NeverStuck
PROPERTIES EndsWhenEmpty CountsAreRight
CHECK_DEADLOCK FALSE
