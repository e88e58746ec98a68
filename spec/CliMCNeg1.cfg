SPECIFICATION Spec
CONSTANTS MaxDev = 1 Early = TRUE Eager = FALSE
Names = {"greenfn", "kernel", "modsum", "syn", "static greenfn", "static syn", "okada", "eigenv", "eigenfn", "disp2asc", "travt", "lamb1"}
INVARIANTS BaseValid Settled
