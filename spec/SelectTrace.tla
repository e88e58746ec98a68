------------------------------ MODULE SelectTrace -----------------------------
(* record: stored (milli-units), sel, leaf, exit status, whether anything was       *)
(* written, and which directory the traces came from (0 when none).                  *)
EXTENDS Select, TraceRun
Want(r) == IF r.leaf # 0 THEN PickLeaf(r.leaf, r.sel) ELSE Pick(r.stored, r.sel)
Ok(r) == LET w == Want(r) IN
  IF w = 0 THEN ~r.rc0 /\ ~r.wrote /\ r.picked = 0
  ELSE /\ r.rc0 /\ r.picked = w
       /\ \A a \in 1..3 : Near(r.hdr[a], r.stored[w][a], 1, 1000000)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
