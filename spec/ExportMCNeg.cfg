SPECIFICATION Spec
CONSTANTS
  MaxSize = 60
  MaxRec = 9
  Lenient = TRUE
INVARIANT Inv
