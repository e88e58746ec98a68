SPECIFICATION Spec
CONSTANTS MaxRows = 2 MaxDepth = 5 Forms = {4, 6}
INVARIANTS Inv EmitDone
