SPECIFICATION Spec
CONSTANTS P = 3 Layers = 2 NF = 1 NT = 1 Caps = {1, 2} StopWhenFull = TRUE NoDedupe = FALSE SharedSwitch = FALSE
INVARIANTS Complete Ordered
