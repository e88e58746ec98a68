SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT Inv
INVARIANT EmitAll
