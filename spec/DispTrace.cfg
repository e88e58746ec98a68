SPECIFICATION Spec
CONSTANT One = 1000000
