SPECIFICATION Spec
CONSTANTS P = 3 Layers = 2 NF = 2 NT = 2 Caps = {1, 2, 9} StopWhenFull = FALSE NoDedupe = FALSE SharedSwitch = FALSE
INVARIANTS Complete Ordered
