SPECIFICATION Spec
CONSTANTS MaxDev = 1 Early = FALSE Eager = TRUE
Names = {"greenfn", "kernel", "modsum", "syn", "static greenfn", "static syn", "okada", "eigenv", "eigenfn", "disp2asc", "travt", "lamb1"}
INVARIANTS BaseValid Settled
