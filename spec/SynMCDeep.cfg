SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANT Inv
INVARIANT EmitDone
