SPECIFICATION Spec
CONSTANTS Halve = TRUE EmitOn = TRUE
INVARIANTS OneMotion Folding Bands Periodic Instants EmitReq
