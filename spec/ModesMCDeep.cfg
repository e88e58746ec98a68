SPECIFICATION Spec
CONSTANTS
  One = 6
  NF = 3
  NM = 3
  Depth = 2
  Defect = FALSE
INVARIANT Inv
