------------------------------ MODULE TensorTrace -----------------------------
(* Recorded strain/rotation/stress runs on synthetic seismograms.                     *)
EXTENDS Tensor, TraceRun
G(r, n) == PhysG(r.u[n], r.d[n], r.zne, r.dist)
Close(o, e, tol) == Len(o) = Len(e) /\ \A k \in 1..Len(e) : Abs(o[k] - e[k]) <= tol
ElasticOk(r) ==
  \A n \in 1..Len(r.u) :
    LET g == G(r, n)
        L == Lame(r.rho, r.va, r.vb)
        st == Stress(g, L)
    IN /\ Close(r.strain[n], Strain2(g), 1) /\ Close(r.rotation[n], Rotation2(g), 1)
       /\ Close(r.stress[n], st, 1 + r.stol)
(* attenuating: samples a,b,-a,-b plus c,-c,c,-c of each gradient component             *)
AttOk(r) ==
  LET g0 == G(r, 1)  g1 == G(r, 2)  g2 == G(r, 3)
      s0 == Strain2(g0) s1 == Strain2(g1) s2 == Strain2(g2)
      H(x0, x1, x2) == << (x0 - x2) \div 2, (x0 + x2 + 2*x1) \div 2, (x0 + x2) \div 2 >>   \* a, b, c
      M == r.rho * r.vb * r.vb
      P == r.rho * r.va * r.va
  IN \A k \in 1..6 :
      LET z == H(s0[k], s1[k], s2[k])
          t == H(Trace(g0), Trace(g1), Trace(g2))
          sm == Filter4(z[1], z[2], z[3], r.qb)
          tp == Filter4(t[1], t[2], t[3], r.qa)
          tm == Filter4(t[1], t[2], t[3], r.qb)
      IN \A n \in 1..4 :
          Abs(100 * r.stress[n][k]
              - (M * sm[n] + (IF Pairs6[k][1] = Pairs6[k][2] THEN P * tp[n] - 2 * M * tm[n] ELSE 0)) \div 100)
            <= 100 * (2 + r.stol)
Ok(r) == IF ~r.ok THEN FALSE
         ELSE IF r.qa = 0 /\ r.qb = 0 THEN ElasticOk(r) ELSE AttOk(r)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
