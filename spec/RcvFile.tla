-------------------------------- MODULE RcvFile -------------------------------
(* Receiver files (property C12), read line by line.                              *)
(* line = [k, n, e, d, cols]: k = "data" (cols numeric columns), "note" (comment    *)
(* or blank), "junk" (some field is not a finite number)                            *)
EXTENDS VP
IsData(l) == l.k = "data"
Rows(f) == SelectSeq(f, IsData)
Accepted(f) ==
  LET R == Rows(f) IN
  /\ \A i \in 1..Len(f) : f[i].k # "junk"
  /\ Len(R) > 0
  /\ \A i \in 1..Len(R) : R[i].cols \in {3, 6} /\ R[i].cols = R[1].cols /\ R[i].d >= 0
Points(f) == [i \in 1..Len(Rows(f)) |-> <<Rows(f)[i].n, Rows(f)[i].e, Rows(f)[i].d>>]
HasAngles(f) == Rows(f)[1].cols = 6
=============================================================================
