------------------------------- MODULE TimeTrace ------------------------------
(* Recorded syn runs with time functions, integration and differentiation.          *)
EXTENDS Syn, TimeOps, TraceRun
Col(r, F(_), j) == [n \in 1..Len(r.g) |-> F(n)[j]]
T(r) == [tf |-> TF(r.f), damped |-> r.damped, ni |-> r.ni, nd |-> r.nd]
(* scale the harness used: numerators = value * num/den                               *)
Tol(r, x, e) ==
  LET m == MaxSeq([n \in 1..Len(e) |-> Abs(e[n])])
      sx == SumSeq([n \in 1..Len(x) |-> Abs(x[n])])
  IN 4 + (m \div 20000)
       + (IF r.f.kind = "ricker" THEN ConvWeight(Len(x), r.damped) * sx * Pow(2 * Len(x), r.ni) * Pow(2, r.nd) ELSE 0)
(* differentiation cancels: tolerance relative to what was differentiated             *)
SeriesOk(r, obs, x) ==
  LET e == Process(x, T(r))
      pre == Process(x, [T(r) EXCEPT !.nd = 0])
      m == MaxSeq([n \in 1..Len(pre) |-> Abs(pre[n])]) * Pow(2, r.nd)
  IN /\ Len(obs) = Len(e)
     /\ \A n \in 1..Len(e) : Abs(obs[n] - e[n]) <= Tol(r, x, e) + (m \div 30000)
(* a parabola of a single interval has no interior sample: refused, nothing written     *)
MustRefuse(f) == f.kind = "parabola" /\ CeilDiv(f.a, f.m) = 1
Ok(r) ==
  IF MustRefuse(r.f) THEN r.refused ELSE
  IF ~r.ok THEN FALSE ELSE
  LET U(n) == SynU(r.c, r.g[n])
      D(n) == SynD(r.c, r.g[n], r.gz[n], r.gr[n])
  IN /\ r.dens = SynDens(r.c) /\ r.tfden = TFDen(r.f)
     /\ \A j \in 1..3 : SeriesOk(r, r.u[j], Col(r, U, j))
     /\ (r.c.upar => \A k \in 1..3, j \in 1..3 :
           SeriesOk(r, r.d[k][j], [n \in 1..Len(r.g) |-> D(n)[k][j]]))
     /\ r.sigden = SigDen(r.f)
     /\ NearSeq(r.sig, Sig(r.f), 1 + SigDen(r.f) \div 20000, 20000)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
