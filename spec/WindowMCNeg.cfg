SPECIFICATION Spec
CONSTANTS Halve = FALSE EmitOn = FALSE
INVARIANTS OneMotion Folding Bands Periodic Instants EmitReq
