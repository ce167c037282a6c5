SPECIFICATION Spec
CONSTANTS
  Players = 2
  Hole = 2
  Board = 5
  DeckRanks = {0, 3, 10, 11, 12}
  DeckSuits = {0, 1}
INVARIANTS CardsConserved WaysAgree SomeoneWins SuitsDoNotMatter BoardPlays
CHECK_DEADLOCK FALSE
