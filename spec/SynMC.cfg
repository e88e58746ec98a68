SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT Inv
INVARIANT EmitDone
