SPECIFICATION Spec
CONSTANTS MaxStep = 2 MaxF = 3
INVARIANTS SameField Rows Frames Sees EmitP
