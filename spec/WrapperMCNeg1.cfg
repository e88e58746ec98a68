SPECIFICATION Spec
CONSTANTS
  Small = TRUE
  DropRake = TRUE
  FirstWins = FALSE
INVARIANTS Faithful Decided
