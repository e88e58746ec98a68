SPECIFICATION Spec
CONSTANTS MaxLay = 5 Starts <- SQ
INVARIANTS SameMedium WellFormed Confluent EmitD
