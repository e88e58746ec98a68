SPECIFICATION Spec
CONSTANTS P = 5 Layers = 3 NF = 1 NT = 1 Caps = {1, 2, 3, 9} StopWhenFull = FALSE NoDedupe = FALSE SharedSwitch = FALSE
INVARIANTS Complete Ordered
