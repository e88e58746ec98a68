-------------------------------- MODULE FFPlan --------------------------------
(* Executes the specification on requests read from a file and emits, for each, the *)
(* point sources whose sum the program has to produce.                               *)
EXTENDS FiniteFault, IOUtils
VARIABLE j
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
Init == j \in 1..Len(Cases)
Next == j' = 0 /\ j # 0 /\ Emit([id |-> j, refused |-> Refused(Cases[j]), plan |-> IF Refused(Cases[j]) THEN << >> ELSE Plan(Cases[j])])
Spec == Init /\ [][Next]_j
=============================================================================
