SPECIFICATION Spec
CONSTANTS
  Small = FALSE
  DropRake = FALSE
  FirstWins = FALSE
INVARIANTS Faithful Decided
