------------------------------ MODULE RangesTrace -----------------------------
(* record: class, kind, v (integers), exit status, whether output was made, values  *)
(* the command worked on (in thousandths of the unit)                                *)
EXTENDS Ranges, TraceRun
Ok(r) == LET d == Denotes(r.class, r.kind, r.v) IN
  IF d = Refuse THEN ~r.rc0 /\ ~r.wrote
  ELSE /\ r.rc0 /\ Len(r.vals) = Len(d)
       /\ \A k \in 1..Len(d) : Near(r.vals[k], 1000 * d[k], 2, 1000000)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
