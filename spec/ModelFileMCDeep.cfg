SPECIFICATION Spec
CONSTANTS MaxRows = 4 MaxDepth = 11 Forms = {4, 6}
INVARIANTS Inv
