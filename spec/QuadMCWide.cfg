SPECIFICATION Spec
CONSTANTS
  K = 34
  Dk = 2
  Fdk = 8
  Cut = 0
  MinW = 4
  LeftFirst = TRUE
  Handover = TRUE
INVARIANTS InOrder Complete Partition NoGap
PROPERTY Finishes
