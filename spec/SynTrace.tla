------------------------------- MODULE SynTrace -------------------------------
(* Checks recorded runs of the real program against Syn.                           *)
EXTENDS Syn, TraceRun
Ok(r) ==
  IF ~r.ok THEN FALSE ELSE
  /\ r.dens = SynDens(r.c)
  /\ Len(r.obs) = Len(r.g)
  /\ \A n \in 1..Len(r.g) :
       LET e == SynExpected(r.c, r.g[n], r.gz[n], r.gr[n]) IN
       /\ NearSeq(r.obs[n].u, e.u, 3 + r.dens.u \div 50000, 50000)
       /\ Len(r.obs[n].d) = Len(e.d)
       /\ \A k \in 1..Len(e.d) : NearSeq(r.obs[n].d[k], e.d[k], 3 + r.dens.zr \div 20000, 20000)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
