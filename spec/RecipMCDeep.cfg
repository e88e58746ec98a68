SPECIFICATION Spec
INVARIANT Equivalent
CONSTANTS
 NB = 200
 Deep = TRUE
