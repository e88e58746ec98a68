SPECIFICATION Spec
INVARIANTS Pair Traceless
