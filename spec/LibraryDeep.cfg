SPECIFICATION Spec
CONSTANT Depths = {0, 2, 3, 5}
CONSTANT North = {0}
CONSTANT East = {0, 1, 6, 20}
CONSTANT MaxDep = 3
INVARIANT Inv
INVARIANT EmitDone
