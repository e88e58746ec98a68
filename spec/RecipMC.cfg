SPECIFICATION Spec
INVARIANT Equivalent
CONSTANTS
 NB = 24
 Deep = FALSE
