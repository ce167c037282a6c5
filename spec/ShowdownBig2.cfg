SPECIFICATION Spec
CONSTANTS
  Players = 3
  Hole = 1
  Board = 4
  DeckRanks = {0, 1, 3, 12}
  DeckSuits = {0, 1, 2}
INVARIANTS CardsConserved WaysAgree SomeoneWins SuitsDoNotMatter BoardPlays
CHECK_DEADLOCK FALSE
