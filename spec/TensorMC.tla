------------------------------- MODULE TensorMC -------------------------------
(* Algebra of the tensor operators over all small gradients: frame independence,       *)
(* decomposition, rigid motion.                                                         *)
EXTENDS Tensor, Source
CONSTANT Deep
VARIABLES u, D, az, dist
Vals == {-1, 2}
Init == /\ u \in [1..3 -> {0, 1}] /\ az \in (IF Deep THEN {Ang(4,3,5), Ang(0,1,1), Ang(-3,4,5), Ang(-4,-3,5)} ELSE {Ang(4,3,5), Ang(0,-1,1)}) /\ dist \in {0, 2}
        /\ D \in { << <<a, b, 1>>, <<c, d, e>>, <<f, g, h>> >> : a, b, c, d, e, f, g, h \in Vals }
Next == UNCHANGED <<u, D, az, dist>>
Spec == Init /\ [][Next]_<<u, D, az, dist>>
GC == PhysG(u, D, FALSE, dist)
GN == RotGrad(GC, az)            \* Cartesian, denominator h^2
h2 == az.h * az.h
L == Lame(2, 3, 1)
Sq(v) == v * v
Frame ==
  LET sc == Strain2(GC)  sn == Strain2(GN)  wc == Rotation2(GC)  wn == Rotation2(GN) IN
  /\ Trace(GN) = h2 * Trace(GC)                                     \* dilatation
  /\ sn[1] = h2 * sc[1]                                             \* e_zz
  \* vertical shear and rotation transform as vectors
  /\ Sq(sn[2]) + Sq(sn[3]) = h2 * h2 * (Sq(sc[2]) + Sq(sc[3]))
  /\ Sq(wn[1]) + Sq(wn[2]) = h2 * h2 * (Sq(wc[1]) + Sq(wc[2]))
  \* rotation about the vertical is frame independent
  /\ wn[3] = h2 * wc[3]
  \* stress is linear in the gradient and isotropic
  /\ Stress(GN, L)[1] = h2 * Stress(GC, L)[1]
  /\ Stress(GN, L)[4] + Stress(GN, L)[6] = h2 * (Stress(GC, L)[4] + Stress(GC, L)[6])
Decompose == \A k \in 1..3 :
  LET p == Pairs3[k]  m == CASE k = 1 -> 2 [] k = 2 -> 3 [] k = 3 -> 5 IN
  /\ Strain2(GC)[m] + Rotation2(GC)[k] = 2 * GC[p[2]][p[1]]
  /\ Strain2(GC)[m] - Rotation2(GC)[k] = 2 * GC[p[1]][p[2]]
Fluid == LET F == Lame(2, 3, 0) IN \A k \in {2, 3, 5} : Stress(GC, F)[k] = 0
Inv == Frame /\ Decompose /\ Fluid
=============================================================================
