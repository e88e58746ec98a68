SPECIFICATION Spec
CONSTANTS
  One = 2
  NF = 2
  NM = 2
  Depth = 2
  Defect = FALSE
INVARIANT Inv
