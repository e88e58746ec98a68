SPECIFICATION Spec
CONSTANTS MaxStep = 3 MaxF = 4
INVARIANTS SameField Rows Frames Sees EmitP
