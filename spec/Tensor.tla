-------------------------------- MODULE Tensor --------------------------------
(* Strain, rotation and stress from a displacement gradient (properties C07, C11). *)
(* u, D are integer (z,a,b) components and derivatives D[i][j] = d_i u_j; in the    *)
(* curvilinear frame D[3] is (1/r) d/dtheta and the unit vectors turn.              *)
EXTENDS VP

(* physical gradient times the distance d (d = 1 in the Cartesian frame and at r=0) *)
PhysG(u, D, zne, dist) ==
  IF zne THEN D
  ELSE IF dist = 0
       THEN << D[1], D[2], << D[3][1], D[3][2] - D[2][3], D[3][3] + D[2][2] >> >>
       ELSE << [j \in 1..3 |-> dist * D[1][j]], [j \in 1..3 |-> dist * D[2][j]],
               << dist * D[3][1], dist * D[3][2] - u[3], dist * D[3][3] + u[2] >> >>
GScale(zne, dist) == IF zne \/ dist = 0 THEN 1 ELSE dist

Pairs6 == << <<1,1>>, <<1,2>>, <<1,3>>, <<2,2>>, <<2,3>>, <<3,3>> >>
Pairs3 == << <<1,2>>, <<1,3>>, <<2,3>> >>

(* twice the strain / twice the rotation                                             *)
Strain2(G) == [k \in 1..6 |-> G[Pairs6[k][1]][Pairs6[k][2]] + G[Pairs6[k][2]][Pairs6[k][1]]]
Rotation2(G) == [k \in 1..3 |-> G[Pairs3[k][2]][Pairs3[k][1]] - G[Pairs3[k][1]][Pairs3[k][2]]]
Trace(G) == G[1][1] + G[2][2] + G[3][3]
(* Hooke: lam tr(e) I + 2 mu e                                                        *)
Lame(rho, va, vb) == [mu |-> rho * vb * vb, lam |-> rho * (va * va - 2 * vb * vb)]
Stress(G, L) == [k \in 1..6 |->
    L.mu * Strain2(G)[k] + (IF Pairs6[k][1] = Pairs6[k][2] THEN L.lam * Trace(G) ELSE 0)]

(* Attenuating medium, four samples a,b,-a,-b plus c,-c,c,-c: the modulus at the       *)
(* reference (Nyquist) frequency is (1 + i q/2)^2, at half of it (1 - q ln2/pi + i q/2)^2. *)
(* Operators return the filtered samples of M*x times 10^4 (q = 0 or 1).               *)
HalfRe(q) == IF q = 0 THEN 10000 ELSE 3574     \* (1-.220636)^2 - 1/4
HalfIm(q) == IF q = 0 THEN 0 ELSE 7794         \* 2 (1-.220636)(1/2)
NyqRe(q) == IF q = 0 THEN 10000 ELSE 7500
Filter4(a, b, c, q) ==
  LET y0 == HalfRe(q) * a + HalfIm(q) * b
      y1 == HalfRe(q) * b - HalfIm(q) * a
  IN << y0 + NyqRe(q)*c, y1 - NyqRe(q)*c, -y0 + NyqRe(q)*c, -y1 - NyqRe(q)*c >>
=============================================================================
