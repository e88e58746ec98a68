SPECIFICATION Spec
CONSTANTS MaxRows = 3 MaxDepth = 7 Forms = {6}
INVARIANTS Inv
