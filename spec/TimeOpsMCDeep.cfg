SPECIFICATION Spec
CONSTANTS Vals <- VQ
 HVals <- HD
 NMax = 4
INVARIANT Inv
