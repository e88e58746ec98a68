SPECIFICATION Spec
CONSTANTS
  K = 26
  Dk = 4
  Fdk = 2
  Cut = 6
  MinW = 4
  LeftFirst = FALSE
  Handover = TRUE
INVARIANTS InOrder Complete Partition NoGap
PROPERTY Finishes
