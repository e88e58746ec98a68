SPECIFICATION Spec
CONSTANTS Max = 2
 Len4 = 4
 Wrong = 0
INVARIANTS Rotated Reciprocal Quiet Incompressible
