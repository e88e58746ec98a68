SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Rich = TRUE
INVARIANT Inv
INVARIANT EmitDone
PROPERTY Untouched
PROPERTY RefusedTouchesNothing
