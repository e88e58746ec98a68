SPECIFICATION Spec
CONSTANTS
  MaxRuns = 3
  Rich = TRUE
INVARIANT Inv
INVARIANT EmitDone
PROPERTY Untouched
PROPERTY RefusedTouchesNothing
