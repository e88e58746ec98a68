SPECIFICATION Spec
CONSTANTS Vals <- VQ
 HVals <- HQ
 NMax = 3
INVARIANT Inv
