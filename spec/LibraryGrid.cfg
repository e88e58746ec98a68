SPECIFICATION Spec
CONSTANT Depths = {0, 2, 5}
CONSTANT North <- NorthG
CONSTANT East <- EastG
CONSTANT MaxDep = 2
INVARIANT Inv
INVARIANT EmitDone
