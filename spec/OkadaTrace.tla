------------------------------ MODULE OkadaTrace ------------------------------
EXTENDS Okada, TraceRun
T == INSTANCE Tensor
Cl(o, e, t) == Abs(o - e) <= t
(* Z up, N, E components under a motion of the horizontal plane; h * new = k A old *)
MU(m, u) == << m.h * m.k * u[1], m.k * (m.a[1] * u[2] + m.a[2] * u[3]), m.k * (m.a[3] * u[2] + m.a[4] * u[3]) >>
MD(m, d) == LET R(ii, j) == CASE ii = 1 \/ j = 1 -> (IF ii = j THEN m.h ELSE 0) [] OTHER -> m.a[2 * (ii - 2) + j - 1]
                MR(p, j) == d[p][1] * R(j, 1) + d[p][2] * R(j, 2) + d[p][3] * R(j, 3)
            IN [ii \in 1..3 |-> [j \in 1..3 |-> m.k * (R(ii, 1) * MR(1, j) + R(ii, 2) * MR(2, j) + R(ii, 3) * MR(3, j))]]
PairOk(r) ==
  /\ Same(r.f0, r.m, r.f)
  /\ Len(r.u1) = Len(r.u2) /\ Len(r.d1) = Len(r.u1) /\ Len(r.d2) = Len(r.u1)
  /\ \A k \in 1..Len(r.u1) :
       /\ \A j \in 1..3 : Cl(r.m.h * r.u2[k][j], MU(r.m, r.u1[k])[j], r.tol * r.m.h * Abs(r.m.k))
       /\ \A ii, j \in 1..3 : Cl(r.m.h * r.m.h * r.d2[k][ii][j], MD(r.m, r.d1[k])[ii][j], r.tol * r.m.h * r.m.h * Abs(r.m.k))
(* crossing the plane of a fault one passes from foot wall to hanging wall by the slip,  *)
(* and by nothing beside it                                                               *)
JumpOk(r) == LET b == IF r.inside THEN Slip(r.fault) ELSE <<0, 0, 0>> IN \A j \in 1..3 : Cl(DEN * r.jump[j], r.unit * b[j], DEN * r.tol)
(* derivatives are the slopes of the displacements (four-point stencil)                   *)
StencilOk(r) == \A ii, j \in 1..3 : LET w == r.w[ii] IN Cl(8 * (w[3][j] - w[2][j]) - (w[4][j] - w[1][j]), 12 * r.d[ii][j], r.tol)
(* static equilibrium: (lam + mu) grad div u + mu lap u = 0; s[ii][j][k] = d_i d_j u_k       *)
EquilOk(r) == /\ \A k \in 1..3 : Cl((r.lam + r.mu) * (r.s[k][1][1] + r.s[k][2][2] + r.s[k][3][3]) + r.mu * (r.s[1][1][k] + r.s[2][2][k] + r.s[3][3][k]), 0, r.tol * (r.lam + r.mu))
              /\ \A ii, j, k \in 1..3 : Cl(r.s[ii][j][k], r.s[j][ii][k], r.tol)
(* no traction on the free surface                                                          *)
FreeOk(r) == LET d == r.d IN /\ Cl(d[1][2], -d[2][1], r.tol) /\ Cl(d[1][3], -d[3][1], r.tol)
                             /\ Cl(r.lam * (d[1][1] + d[2][2] + d[3][3]) + 2 * r.mu * d[1][1], 0, r.tol * (r.lam + 2 * r.mu))
(* the radial frame: e_r = (c, s)/h, e_t = (-s, c)/h; D carries the distance                *)
FrameOk(r) ==
  LET g == T!PhysG(r.uz, r.dz, FALSE, r.dist)
      a == r.az
      m == [a |-> << a.c, a.s, -a.s, a.c >>, h |-> a.h, k |-> 1]
  IN /\ \A j \in 1..3 : Cl(a.h * r.uz[j], MU(m, r.un)[j], a.h * r.tol)
     /\ \A ii, j \in 1..3 : Cl(a.h * a.h * g[ii][j], MD(m, r.dn)[ii][j], 2 * a.h * a.h * r.tol)
PostOk(r) ==
  LET g == T!PhysG(r.u, r.d, r.zne, 1)
      L == [mu |-> r.mu, lam |-> r.lam]
  IN /\ \A k \in 1..6 : Cl(2 * r.strain[k], T!Strain2(g)[k], r.tol)
     /\ \A k \in 1..3 : Cl(2 * r.rotation[k], T!Rotation2(g)[k], r.tol)
     /\ \A k \in 1..6 : Cl(r.stress[k], T!Stress(g, L)[k], r.tol * (r.lam + 2 * r.mu))
SameOk(r) == Len(r.x) = Len(r.y) /\ \A k \in 1..Len(r.x) : Cl(r.x[k], r.y[k], r.tol)
(* the moment tensor of a double couple of dip d and rake l at a given strike is            *)
(* cos l (cos d A + sin d B) + sin l (sin 2d C + cos 2d E) with A, B, C, E those of          *)
(* (dip, rake) = (0, 0), (90, 0), (45, 90), (0, 90); a = these four factors, in units of 1/n *)
ComboOk(r) == \A k \in 1..Len(r.x) : Cl(r.n * r.x[k], r.a[1] * r.b[1][k] + r.a[2] * r.b[2][k] + r.a[3] * r.b[3][k] + r.a[4] * r.b[4][k], r.n * r.tol)
Ok(r) == r.ok /\ CASE r.kind = "pair" -> PairOk(r) [] r.kind = "jump" -> JumpOk(r) [] r.kind = "stencil" -> StencilOk(r)
                   [] r.kind = "equil" -> EquilOk(r) [] r.kind = "free" -> FreeOk(r) [] r.kind = "frame" -> FrameOk(r)
                   [] r.kind = "post" -> PostOk(r) [] r.kind = "same" -> SameOk(r) [] r.kind = "combo" -> ComboOk(r)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
