------------------------------- MODULE OkadaPts -------------------------------
(* All pairs of double couples <<strike, dip, rake>> with the same dyad: the two      *)
(* nodal planes of a shear, a plane read the other way round, and so on.               *)
EXTENDS Okada
VARIABLES p, done
Quad == { Ang(1,0,1), Ang(0,1,1), Ang(-1,0,1), Ang(0,-1,1) }
Full == Quad \cup { Ang(a, b, 5) : a \in {3, -3}, b \in {4, -4} } \cup { Ang(a, b, 5) : a \in {4, -4}, b \in {3, -3} }
Dips == { Ang(1,0,1), Ang(0,1,1), Ang(3,4,5), Ang(4,3,5) }
Src == { [st |-> s, dip |-> d, rk |-> r] : s \in Full, d \in Dips, r \in Full }
F(x) == [p |-> <<0,0,0>>, L |-> 1, W |-> 1, st |-> x.st, dip |-> x.dip, slip |-> <<0,0,0>>]
Mech(x) == LET k == 5 \div x.rk.h IN Dyad(Times(k, Plus(Times(x.rk.c, Along(F(x))), Times(-x.rk.s, Down(F(x))))), Norm(F(x)))
Init == p \in Src /\ done = FALSE
Next == ~done /\ done' = TRUE /\ p' = p
Spec == Init /\ [][Next]_<<p, done>>
Pair == done => LET S == { y \in Src : Mech(y) = Mech(p) } IN Emit([of |-> p, same |-> S])
Traceless == LET T == Mech(p) IN T[1] + T[4] + T[6] = 0
=============================================================================
