SPECIFICATION Spec
CONSTANTS P = 3 Layers = 2 NF = 1 NT = 1 Caps = {9} StopWhenFull = FALSE NoDedupe = TRUE SharedSwitch = FALSE
INVARIANTS Complete Ordered
