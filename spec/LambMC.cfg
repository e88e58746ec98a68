SPECIFICATION Spec
CONSTANTS Max = 1
 Len4 = 3
 Wrong = 0
INVARIANTS Rotated Reciprocal Quiet Incompressible
