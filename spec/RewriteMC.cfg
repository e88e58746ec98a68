SPECIFICATION Spec
CONSTANTS MaxLay = 4 Starts <- SQ
INVARIANTS SameMedium WellFormed Confluent EmitD
