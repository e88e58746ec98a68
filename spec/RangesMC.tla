------------------------------- MODULE RangesMC -------------------------------
EXTENDS Ranges
CONSTANTS Lo, Hi, DLo, DHi, LMax
NegTwo == -2
VARIABLES class, kind, v
vars == <<class, kind, v>>
Classes == {"dist", "axis", "time", "freq", "freq2", "per", "cvel"}
Lists(n) == UNION { [1..k -> Lo..3] : k \in 1..n }
Init == \/ /\ kind = "range" /\ class \in Classes
           /\ \E a \in Lo..Hi, b \in Lo..Hi, d \in DLo..DHi : v = <<a, b, d>>
        \/ /\ kind \in {"list", "file"} /\ class = "dist" /\ v \in Lists(LMax)
        \/ /\ kind = "list" /\ class \in {"freq", "per"} /\ v \in [1..1 -> Lo..3]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
D == Denotes(class, kind, v)
(* a range is what its definition says, written without reference to Prog *)
IsRange == (kind = "range" /\ D # Refuse /\ class \in {"dist", "axis", "time", "cvel"}) =>
  /\ D[1] = v[1] /\ D[Len(D)] <= v[2] /\ D[Len(D)] + v[3] > v[2]
  /\ \A k \in 1..(Len(D) - 1) : D[k + 1] - D[k] = v[3]
  /\ ((v[2] - v[1]) % v[3] = 0) => D[Len(D)] = v[2]
IsFreq == (kind = "range" /\ D # Refuse /\ class \in {"freq", "freq2", "per"}) =>
  { x \in Range(D) : TRUE } = { x \in 1..Hi : x <= v[2] /\ x >= v[1] /\ \E k \in 0..Hi : x = v[1] + k * v[3] }
ListKept == (kind # "range" /\ D # Refuse) => D = v
Never == (D # Refuse /\ class # "axis") => \A k \in 1..Len(D) : D[k] >= 0
Inv == IsRange /\ IsFreq /\ ListKept /\ Never
Out == Emit([class |-> class, kind |-> kind, v |-> v, ok |-> D # Refuse])
=============================================================================
