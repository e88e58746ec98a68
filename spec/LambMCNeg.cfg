SPECIFICATION Spec
CONSTANTS Max = 1
 Len4 = 3
 Wrong = 1
INVARIANTS Rotated Reciprocal Quiet Incompressible
