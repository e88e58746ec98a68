---------------------------- MODULE StaticSynTrace ----------------------------
(* Recorded runs of `grt static syn` against StaticSyn.                            *)
EXTENDS StaticSyn, TraceRun
PointOk(lib, q, p) ==
  /\ p.on = 1000 * p.n /\ p.oe = 1000 * p.e /\ p.od = 1000 * p.d
  /\ p.r * p.r = p.n * p.n + p.e * p.e
  /\ IF Beyond(lib, p)
     THEN p.u = <<0,0,0>> /\ (q.upar => p.dd = ZeroM)
     ELSE /\ p.dens = StDens(lib, q, p)
          /\ LET e == StExpected(lib, q, p) IN
             /\ NearSeq(p.u, e.u, 2 + p.dens.u \div 100000, 200000)
             /\ IF q.upar THEN \A k \in 1..3 : NearSeq(p.dd[k], e.d[k], 2 + p.dens.d \div 100000, 200000) ELSE TRUE
Ok(r) ==
  IF Refused(r.lib, r.q, r.pts) THEN ~r.rc0 /\ ~r.wrote
  ELSE /\ r.rc0 /\ r.wrote /\ r.vars
       /\ r.npts = Len(r.pts)
       /\ r.warned = (\E k \in 1..Len(r.pts) : Beyond(r.lib, r.pts[k]))
       /\ \A k \in 1..Len(r.pts) : PointOk(r.lib, r.q, r.pts[k])
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
