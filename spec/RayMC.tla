--------------------------------- MODULE RayMC --------------------------------
(* All stacks of up to three layers over a small set of thicknesses and slownesses,    *)
(* all pairs of depths, distances visited in order.  The first arrival must behave as   *)
(* a first arrival.                                                                      *)
EXTENDS Ray
CONSTANTS Us, Hs, Xs, Zs, MaxLay
UsQ == {0, 12500, 20000, 33000}
HsQ == {100, 250}
XsQ == <<0, 200, 2000>>
ZsQ == {0, 100, 150}
UsD == {0, 12500, 20000, 20200, 33000}
HsD == {100, 250}
XsD == <<0, 50, 600, 2000, 7000>>
ZsD == {0, 100, 150}
VARIABLES m, a, b, ix, t
vars == <<m, a, b, ix, t>>
Stacks == UNION { [1..n -> Hs \X Us] : n \in 1..MaxLay }
Init == m \in Stacks /\ a \in Zs /\ b \in Zs /\ a <= b /\ ix = 1 /\ t = IF Avail(m, a, b) THEN First(m, a, b, Xs[1]) ELSE -1
Step == ix < Len(Xs) /\ ix' = ix + 1 /\ t' = (IF Avail(m, a, b) THEN First(m, a, b, Xs[ix + 1]) ELSE -1) /\ UNCHANGED <<m, a, b>>
Next == Step
Spec == Init /\ [][Next]_vars
Tol == 3000
X == Xs[ix]
USet == { m[k][2] : k \in 1..Len(m) } \ {0}
Fast == MinU(USet)
NonNegative == t >= 0 \/ ~Avail(m, a, b)
(* never faster than the fastest slowness over the straight distance *)
LowerBound == t >= 0 => t + Tol >= Fast * X
(* never later than the straight path at the slowest speed met *)
Slowest == CHOOSE u \in { m[k][2] : k \in Lay(m, a)..Lay(m, b) } : \A k \in Lay(m, a)..Lay(m, b) : u >= m[k][2]
UpperBound == t >= 0 => t <= Slowest * (X + (b - a)) + Tol
Reciprocal == t >= 0 => First(m, b, a, X) = t
Vertical == (t >= 0 /\ X = 0) => Near(t, SumTo([ j \in 1..Len(m) |-> Ov(m, j, a, b) * m[j][2] ], Len(m)), Tol, 100000)
(* Fermat: passing through any depth z and offset in between is not quicker *)
Fermat == t >= 0 => \A z \in Zs : \A j \in 1..ix : (Avail(m, a, z) /\ Avail(m, z, b)) => t <= First(m, a, z, Xs[j]) + First(m, z, b, X - Xs[j]) + 2 * Tol
(* splitting the first layer in two of the same material changes nothing *)
Split == (t >= 0 /\ m[1][1] >= 2) =>
  Near(First(<< <<m[1][1] \div 2, m[1][2]>>, <<m[1][1] - m[1][1] \div 2, m[1][2]>> >> \o Tail(m), a, b, X), t, Tol, 100000)
Inv == NonNegative /\ LowerBound /\ UpperBound /\ Reciprocal /\ Vertical /\ Fermat /\ Split
Grows == [][t' >= 0 => t' + Tol >= t]_vars
=============================================================================
