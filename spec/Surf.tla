--------------------------------- MODULE Surf ---------------------------------
(* One guided mode of a layered half-space: phase velocity c(omega; medium), group       *)
(* velocity U = d omega / dk, sensitivities dc/dp, energy integrals.                      *)
(*                                                                                        *)
(* Units.  Every observable is a monomial in length, velocity and density; a weight is    *)
(* the vector of exponents.  Changing the unit of the medium by the factor 2^g[d] in      *)
(* dimension d multiplies an observable by 2^(g . weight).                                *)
EXTENDS VP
Dims == 1..3                              \* length, velocity, density
W == [ H   |-> << 1, 0, 0>>, a |-> <<0, 1, 0>>, b |-> <<0, 1, 0>>, rho |-> <<0, 0, 1>>,
       f   |-> <<-1, 1, 0>>, k |-> <<-1, 0, 0>>, c |-> <<0, 1, 0>>, U |-> <<0, 1, 0>>,
       ca  |-> << 0, 0, 0>>, cb |-> <<0, 0, 0>>, cr |-> <<0, 1, -1>>,
       ua  |-> << 0, 0, 0>>, ub |-> <<0, 0, 0>>, ur |-> <<0, 1, -1>> ]
Dot(g, w) == g[1] * w[1] + g[2] * w[2] + g[3] * w[3]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* x, scaled by 2^e, against y; tol in the unit of y *)
ScalesTo(x, e, y, tol) == IF e >= 0 THEN Abs(x * Pow2(e) - y) <= tol * Pow2(e) ELSE Abs(x - y * Pow2(-e)) <= tol * Pow2(-e)

(* Layers.  A mode's sensitivities summed over the layers: the medium as a whole made     *)
(* denser by a factor changes nothing, made faster by a factor changes c as the frequency *)
(* does (Euler's theorem on the homogeneous c).                                           *)
EulerRho(s) == SumSeq(s)                                   \* sum of rho dc/drho           = 0
EulerVel(s) == SumSeq(s)                                   \* sum of a dc/da + b dc/db     = c c / U
=============================================================================
