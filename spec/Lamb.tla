--------------------------------- MODULE Lamb ---------------------------------
(* Surface displacements of a half-space under a step force at a point of the surface:   *)
(* G[i][j], motion i under force j, axes 1 = north, 2 = east, 3 = down, observed in        *)
(* azimuth phi.  In the radial frame three constants and one antisymmetric pair remain:    *)
(*    rr, tt, zz, and rz = -zr.                                                            *)
(* Phases of a record: quiet (before P), body (P to Rayleigh), still (after Rayleigh).     *)
EXTENDS VP
Phases == {"quiet", "body", "still"}
(* the tensor in azimuth a = [c, s, h], times h^2 *)
Frame(g, a) == << << a.c * a.c * g.rr + a.s * a.s * g.tt, a.c * a.s * (g.rr - g.tt), a.h * a.c * g.rz >>,
                  << a.c * a.s * (g.rr - g.tt), a.s * a.s * g.rr + a.c * a.c * g.tt, a.h * a.s * g.rz >>,
                  << -(a.h * a.c * g.rz), -(a.h * a.s * g.rz), a.h * a.h * g.zz >> >>
Vec(k, j) == IF k = j THEN 1 ELSE 0
(* rotation by a of a tensor: Q G Q^T, Q = rotation about the vertical; times h^2 *)
Q(a) == << << a.c, -a.s, 0 >>, << a.s, a.c, 0 >>, << 0, 0, a.h >> >>
Rot(t, a) == [i \in 1..3 |-> [j \in 1..3 |-> LET q == Q(a) IN
   q[i][1] * (t[1][1] * q[j][1] + t[1][2] * q[j][2] + t[1][3] * q[j][3]) +
   q[i][2] * (t[2][1] * q[j][1] + t[2][2] * q[j][2] + t[2][3] * q[j][3]) +
   q[i][3] * (t[3][1] * q[j][1] + t[3][2] * q[j][2] + t[3][3] * q[j][3])]]
(* reciprocity: motion i under force j seen in azimuth phi is motion j under force i seen in phi + 180 *)
Opposite(a) == Ang(-a.c, -a.s, a.h)
Transpose(t) == [i \in 1..3 |-> [j \in 1..3 |-> t[j][i]]]
(* static limits of pi^2 mu r G, in units of pi / (4 n) with nu = m / n (Boussinesq, Cerruti) *)
StillG(m, n) == [rr |-> 2 * n, tt |-> 2 * (n - m), zz |-> 2 * (n - m), rz |-> -(n - 2 * m)]
=============================================================================
