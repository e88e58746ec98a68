SPECIFICATION Spec
CONSTANTS
  MaxSize = 60
  MaxRec = 9
  Lenient = FALSE
INVARIANT Inv
