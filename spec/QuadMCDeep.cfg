SPECIFICATION Spec
CONSTANTS
  K = 74
  Dk = 4
  Fdk = 6
  Cut = 7
  MinW = 4
  LeftFirst = TRUE
  Handover = TRUE
INVARIANTS InOrder Complete Partition NoGap
PROPERTY Finishes
