SPECIFICATION Spec
CONSTANTS
  Small = TRUE
  DropRake = FALSE
  FirstWins = FALSE
INVARIANTS Faithful Decided
