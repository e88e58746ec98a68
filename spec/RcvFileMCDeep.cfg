SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANT Inv
INVARIANT EmitDone
