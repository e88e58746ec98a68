------------------------------ MODULE StTensorMC ------------------------------
EXTENDS StTensor
CONSTANTS MaxLen
VARIABLES upar, zne, pts, steps, have, rcs
vars == <<upar, zne, pts, steps, have, rcs>>
Init == upar \in BOOLEAN /\ zne \in BOOLEAN /\ pts \in BOOLEAN /\ steps = << >> /\ have = {} /\ rcs = << >>
Run(op) == /\ Len(steps) < MaxLen /\ steps' = Append(steps, op)
           /\ IF upar /\ op \notin have THEN have' = have \cup {op} /\ rcs' = Append(rcs, TRUE)
              ELSE UNCHANGED have /\ rcs' = Append(rcs, FALSE)
           /\ UNCHANGED <<upar, zne, pts>>
Next == \E op \in Ops : Run(op)
Spec == Init /\ [][Next]_vars
Closed == have = Has(upar, steps, Len(steps)) /\ \A k \in 1..Len(steps) : rcs[k] = Accepts(upar, steps, k)
Order == upar => have = Range(steps)                   \* only which commands ran matters
Inv == Closed /\ Order
EmitAll == Len(steps) = MaxLen => Emit([upar |-> upar, zne |-> zne, pts |-> pts, steps |-> steps, rcs |-> rcs])
=============================================================================
