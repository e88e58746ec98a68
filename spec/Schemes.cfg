SPECIFICATION Spec
INVARIANTS TypeOK Bounded EmitS
