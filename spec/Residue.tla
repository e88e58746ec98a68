-------------------------------- MODULE Residue --------------------------------
(* Far-field motion of a guided mode (Rayleigh: radial q, vertical w; Love: v), excited   *)
(* by the sources of the Green's functions.  A source of horizontal order m excites the   *)
(* mode through the force or strain of the eigenfunction at its depth:                    *)
(*    excitation = sum of coefficients times  w, kq, w', g = q' + kw  (Rayleigh)           *)
(*                                        or  v, kv, v'            (Love).                 *)
(* Complex numbers are pairs of integers.                                                 *)
EXTENDS VP
Sources == {"EX", "VF", "HF", "DD", "DS", "SS"}
Order == [EX |-> 0, VF |-> 0, HF |-> 1, DD |-> 0, DS |-> 1, SS |-> 2]
E0 == [w |-> 0, q |-> 0, kq |-> 0, dw |-> 0, g |-> 0, v |-> 0, kv |-> 0, dv |-> 0]
Exc == [ VF |-> [E0 EXCEPT !.w = 1],
         HF |-> [E0 EXCEPT !.q = 1, !.v = 1],
         EX |-> [E0 EXCEPT !.dw = 1, !.kq = -1],               \* volume strain
         DD |-> [E0 EXCEPT !.dw = 2, !.kq = 1],                \* 2 e_zz - (e_xx + e_yy)
         DS |-> [E0 EXCEPT !.g = -1, !.dv = -1],               \* shear on horizontal planes
         SS |-> [E0 EXCEPT !.kq = 1, !.kv = 1] ]               \* e_xx - e_yy
CAdd(a, b) == << a[1] + b[1], a[2] + b[2] >>
CMul(n, a) == << n * a[1], n * a[2] >>
(* i^m times a *)
RECURSIVE Turn(_, _)
Turn(m, a) == IF m = 0 THEN a ELSE Turn(m - 1, << -a[2], a[1] >>)
(* the motion seen at the receiver: vertical in phase, horizontal a quarter period ahead *)
Quarter == [Z |-> 0, R |-> 1, T |-> 1]
Basis(e) == {k \in DOMAIN e : e[k] # 0}
RECURSIVE SumBasis(_, _, _)
SumBasis(e, mode, S) == IF S = {} THEN <<0, 0>> ELSE LET k == CHOOSE x \in S : TRUE IN CAdd(CMul(e[k], mode[k]), SumBasis(e, mode, S \ {k}))
(* the contribution of one mode; mode[k]: the receiver's eigenfunction times the source's *)
(* k times the propagation factor                                                          *)
OfMode(src, comp, mode) == CMul(-1, Turn(Order[src] + Quarter[comp], SumBasis(Exc[src], mode, Basis(Exc[src]) \cap DOMAIN mode)))
RECURSIVE OfModes(_, _, _, _)
OfModes(src, comp, modes, n) == IF n = 0 THEN <<0, 0>> ELSE CAdd(OfModes(src, comp, modes, n - 1), OfMode(src, comp, modes[n]))
=============================================================================
