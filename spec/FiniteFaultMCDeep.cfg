SPECIFICATION Spec
CONSTANT MaxLen = 9
INVARIANT Inv
