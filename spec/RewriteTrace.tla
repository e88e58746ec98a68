------------------------------ MODULE RewriteTrace -----------------------------
(* kind "same": all descriptions of one medium; kind "differ": two media that differ in *)
(* one parameter of one layer must not be taken for each other.                           *)
EXTENDS Pure, TraceRun
Apart(a, b, tol) == Len(a) # Len(b) \/ \E j \in 1..Len(a) : Abs(a[j] - b[j]) > tol
Ok(r) == r.ok /\ Len(r.obs) = r.n /\
   IF r.kind = "same" THEN Pure(r.obs, r.tol, r.rel) ELSE Apart(r.obs[1], r.obs[2], r.tol)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
