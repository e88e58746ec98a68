----------------------------- MODULE RcvFileTrace -----------------------------
EXTENDS RcvFile, TraceRun
(* the probe library returns the receiver depth on Z and its distance on R          *)
Ok(r) ==
  IF ~Accepted(r.file) THEN ~r.rc0 /\ ~r.wrote
  ELSE /\ r.rc0 /\ r.wrote
       /\ r.pts = [j \in 1..Len(Points(r.file)) |-> << 100*Points(r.file)[j][1], 100*Points(r.file)[j][2], 100*Points(r.file)[j][3] >>]
       /\ Len(r.zr) = Len(r.pts)
       /\ \A j \in 1..Len(r.zr) :
            LET p == Points(r.file)[j] IN
            /\ Abs(r.zr[j][1] - 100*p[3]) <= 1
            /\ r.zr[j][2] >= 0 /\ Abs(r.zr[j][2]*r.zr[j][2] - 10000*(p[1]*p[1] + p[2]*p[2])) <= 2*r.zr[j][2] + 2
       /\ r.angles = HasAngles(r.file)
       /\ r.same          \* the same rows without angles give the same displacements
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
