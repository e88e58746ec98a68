------------------------------ MODULE ModesTrace ------------------------------
(* kind "rows": a selection applied to a real file; refused exactly when it names     *)
(* nothing the file has.  kind "sum": a synthesis over all modes (frequencies) is the *)
(* sum of those over the parts.                                                       *)
EXTENDS Modes, TraceRun
OkRows(r) == LET G == Filter(r.file, r.sn, r.sf) IN
  IF Empty(G) THEN r.exit # 0 /\ r.got = << >> /\ ~r.wrote
  ELSE r.exit = 0 /\ r.got = Listing(G)
SumParts(r, k) == SumSeq([p \in 1..Len(r.parts) |-> r.parts[p][k]])
OkSum(r) == /\ \A p \in 1..Len(r.parts) : Len(r.parts[p]) = Len(r.whole)
            /\ \A k \in 1..Len(r.whole) : Near(r.whole[k], SumParts(r, k), r.tol + Len(r.parts), 100000)
            /\ \E k \in 1..Len(r.whole) : r.whole[k] # 0
Ok(r) == IF r.kind = "rows" THEN OkRows(r) ELSE OkSum(r)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
