-------------------------------- MODULE FFTrace -------------------------------
(* A recorded finite-fault field against the sum of the recorded fields of its tiles. *)
EXTENDS FiniteFault, TraceRun
Col(r, k, m) == SumSeq([t \in 1..Len(r.parts) |-> r.parts[t][k].u[m]])
ColD(r, k, a, b) == SumSeq([t \in 1..Len(r.parts) |-> r.parts[t][k].d[a][b]])
Dir(p) == IF p.r = 0 THEN Ang0 ELSE Ang(p.n, p.e, p.r)
PointOk(r, k) ==
  LET p == r.c.rcv[k]  o == r.obs[k]  tol == 2 + Len(r.parts)
      u == << Col(r, k, 1), Col(r, k, 2), Col(r, k, 3) >>
      G == [a \in 1..3 |-> [b \in 1..3 |-> ColD(r, k, a, b)]]
      A == IF p.r = 0 THEN Ang0 ELSE p.az
  IN /\ o.at = << 100 * p.n, 100 * p.e, 100 * p.d >>
     /\ IF r.c.zne
        THEN NearSeq(o.u, u, tol, 1000000) /\ (r.c.upar => \A a \in 1..3 : NearSeq(o.d[a], G[a], tol, 1000000))
        ELSE LET v == RotVec(u, NegA(A)) IN
             /\ \A m \in 1..3 : Near(A.h * o.u[m], v[m], 3 * A.h * tol, 1000000)
             /\ (r.c.upar => LET D == ToZRT(G, u, A, p.r)  s == A.h * A.h * Max2(p.r, 1) IN
                   \A a \in 1..3 : \A b \in 1..3 : Near(s * o.d[a][b], D[a][b], 6 * s * tol, 1000000))
Ok(r) ==
  IF Refused(r.c) THEN ~r.rc0 /\ ~r.wrote
  ELSE /\ r.rc0 /\ r.wrote /\ r.partsok /\ Len(r.obs) = Len(r.c.rcv)
       /\ Len(r.parts) = r.nparts
       /\ \A k \in 1..Len(r.c.rcv) : PointOk(r, k)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
