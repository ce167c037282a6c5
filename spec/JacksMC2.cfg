SPECIFICATION MSpec
CONSTANTS
  StartCredits = 6
  MaxWager = 5
  Pool = {"Ac", "Ah", "As", "Ad", "Jc", "Jh", "Tc"}
  Ceiling = 26
CONSTRAINT Bounded
INVARIANTS HandsAreIntact NeverNegative BetsCovered PlayersHaveCredits
PROPERTIES EndsAtZero RoundPays OnlyRoyalAtFivePays4000 NothingElseChanges IsATable
CHECK_DEADLOCK FALSE
