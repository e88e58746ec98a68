SPECIFICATION Spec
CONSTANTS
  K = 28
  Dk = 4
  Fdk = 6
  Cut = 6
  MinW = 4
  LeftFirst = TRUE
  Handover = FALSE
INVARIANTS InOrder Complete Partition NoGap
PROPERTY Finishes
