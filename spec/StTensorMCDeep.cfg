SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT Inv
INVARIANT EmitAll
