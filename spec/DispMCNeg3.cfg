SPECIFICATION Spec
CONSTANTS P = 2 Layers = 1 NF = 2 NT = 2 Caps = {9} StopWhenFull = FALSE NoDedupe = FALSE SharedSwitch = TRUE
INVARIANTS Complete Ordered
