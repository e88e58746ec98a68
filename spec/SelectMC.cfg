SPECIFICATION Spec
CONSTANTS
  WithTwin = TRUE
INVARIANT Inv
INVARIANT Out
