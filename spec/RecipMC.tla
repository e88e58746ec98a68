------------------------------- MODULE RecipMC -------------------------------
(* The relations of Recip are equivalent to reciprocity of the Cartesian tensors:  *)
(* forward families built from any reversed field by the relations satisfy the       *)
(* tensor identity for every mechanism, force and azimuth (mut = 0); changing one    *)
(* family component (mut = its number) breaks it for some mechanism or force.        *)
EXTENDS Recip
CONSTANTS NB, Deep
VARIABLES n, d, mut, az, step
vars == <<n, d, mut, az, step>>

Angles == { Ang(1,0,1), Ang(0,1,1), Ang(-1,0,1), Ang(0,-1,1), Ang(4,3,5), Ang(-3,4,5), Ang(-4,-3,5), Ang(3,-4,5) }
          \cup (IF Deep THEN { Ang(12,5,13), Ang(-12,5,13), Ang(-5,-12,13), Ang(12,-5,13) } ELSE {})

(* reversed fields: unit vectors of the 15-dimensional space of coefficients, then mixtures *)
Unit(k, j) == IF k = j THEN 1 ELSE 0
Field(k) ==
  LET o == [j \in 1..5 |-> IF k <= 15 THEN Unit(k, j) ELSE ((3*k*j + j*j + k) % 7) - 3] IN
  [ o |-> o, u |-> [j \in 1..5 |-> d * o[j]],
    z |-> [j \in 1..5 |-> IF k <= 15 THEN Unit(k, 5 + j) ELSE ((5*k + 2*j*k + j) % 9) - 4],
    r |-> [j \in 1..5 |-> IF k <= 15 THEN Unit(k, 10 + j) ELSE ((k*k + 4*j + 2*k) % 5) - 2] ]

Fwd == [x \in Range(Names) |-> Rel(x, Field(n)) + (IF mut > 0 /\ Names[mut] = x THEN 1 ELSE 0)]

MBasis == { <<1,0,0,0,0,0>>, <<0,1,0,0,0,0>>, <<0,0,1,0,0,0>>, <<0,0,0,1,0,0>>, <<0,0,0,0,1,0>>, <<0,0,0,0,0,1>> }
F3 == { UnitF[i] : i \in 1..3 }

TensorHolds ==
  LET b == Field(n)  fam == Families(Fwd) IN
  /\ \A f1 \in F3 : \A f2 \in F3 : ForceRecip(fam, b, az, d, f1, f2)
  /\ \A m \in MBasis : \A f \in F3 : MomentRecip(fam, b, az, d, m, f)

Init == n \in 1..NB /\ d \in 1..3 /\ mut \in 0..15 /\ az \in Angles /\ step = 0
Next == step = 0 /\ step' = 1 /\ UNCHANGED <<n, d, mut, az>>
Spec == Init /\ [][Next]_vars

Equivalent == step = 1 => (TensorHolds <=> mut = 0)
=============================================================================
