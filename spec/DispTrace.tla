------------------------------ MODULE DispTrace ------------------------------
(* kind "curve": one frequency of a dispersion file against the exact mode counts.     *)
(* kind "same": the same curve computed with another number of modes, threads or       *)
(* frequencies, or after the other wave type.  kind "list": disp2asc's listing is the  *)
(* file's curves, mode by mode.                                                        *)
EXTENDS Disp, TraceRun
Ok(r) == CASE r.kind = "curve" -> r.ok /\ IsCurve(r)
           [] r.kind = "same" -> r.ok /\ SameHead(r.a, r.b, r.cap, r.tol)
           [] OTHER -> r.ok /\ r.a = r.b
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
