------------------------------ MODULE ResidueMC ------------------------------
(* Sources are assembled from unit forces on a lattice of depths: each step adds a force    *)
(* (vertical or horizontal, order 0 or 1) of either sign at some depth, or a horizontal      *)
(* dipole.  The far field of the assembly is the sum of its parts; in particular a vertical  *)
(* dipole is two opposite vertical forces, three orthogonal dipoles make an explosion, and   *)
(* DD is what remains of a vertical dipole.  Wrong: a defective excitation table.             *)
EXTENDS Residue
CONSTANTS D, Amp, Steps, Wrong
VARIABLES w, q, parts, far
vars == <<w, q, parts, far>>
T == IF Wrong = 1 THEN [Exc EXCEPT !["EX"] = [@ EXCEPT !.kq = 1]] ELSE IF Wrong = 2 THEN [Exc EXCEPT !["DD"] = [@ EXCEPT !.dw = 1]] ELSE Exc
K == 2                                                     \* wave number, in lattice units
Mode(z) == [w |-> <<w[z], 0>>, q |-> <<q[z], 0>>, kq |-> <<K * q[z], 0>>, dw |-> <<w[z + 1] - w[z], 0>>, g |-> <<q[z + 1] - q[z] + K * w[z], 0>>]
Ex(s, z) == SumBasis(T[s], Mode(z), Basis(T[s]) \cap DOMAIN Mode(z))
Kinds == {"VF", "XY"}                                      \* XY: the isotropic horizontal dipole, which excites -kq
Sites == Kinds \X (1..D)
Weight(p) == IF p < 0 THEN -p ELSE p
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Weight(parts[x]) + Total(S \ {x})
Init == w \in [1..(D + 1) -> -Amp..Amp] /\ q \in [1..(D + 1) -> -Amp..Amp] /\ parts = [x \in Sites |-> 0] /\ far = <<0, 0>>
Part(x) == IF x[1] = "VF" THEN Ex("VF", x[2]) ELSE <<-K * q[x[2]], 0>>
Add(x, s) == /\ parts' = [parts EXCEPT ![x] = @ + s]
             /\ far' = CAdd(far, CMul(s, Part(x)))
             /\ UNCHANGED <<w, q>>
Next == Total(Sites) < Steps /\ \E x \in Sites, s \in {-1, 1} : Add(x, s)
Spec == Init /\ [][Next]_vars
(* the assemblies the sources stand for *)
Is(z, up, flat) == parts = [x \in Sites |-> IF x = <<"VF", z>> THEN -up ELSE IF x = <<"VF", z + 1>> THEN up ELSE IF x = <<"XY", z>> THEN flat ELSE 0]
ExplosionOk == \A z \in 1..(D - 1) : Is(z, 1, 1) => far = Ex("EX", z)
DDOk == \A z \in 1..(D - 1) : Is(z, 2, -1) => far = Ex("DD", z)
ThirdOk == \A z \in 1..D : CAdd(Ex("EX", z), Ex("DD", z)) = CMul(3, <<w[z + 1] - w[z], 0>>)
FourOk == \A m \in 0..2 : Turn(4, <<m, 1>>) = <<m, 1>> /\ Turn(m + 2, <<1, m>>) = CMul(-1, Turn(m, <<1, m>>))
=============================================================================
