SPECIFICATION Spec
CONSTANTS
  Small = TRUE
  DropRake = FALSE
  FirstWins = TRUE
INVARIANTS Faithful Decided
