SPECIFICATION Spec
CONSTANTS
  Lo <- NegTwo
  Hi = 7
  DLo <- NegTwo
  DHi = 4
  LMax = 3
INVARIANT Inv
INVARIANT Out
