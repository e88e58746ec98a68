-------------------------------- MODULE SurfMC --------------------------------
(* An exact guide: n coupled layers moving together, layer i of density rho[i] and         *)
(* squared velocity v2[i] (stiffness m = rho v2), held by springs of stiffness m d.        *)
(*   sum rho[i] w^2 = sum m[i] k^2 + d sum m[i]                                            *)
(* A history starts at a medium and wave number, and moves along the dispersion curve,     *)
(* perturbs one layer at fixed frequency, splits a layer in two, or changes units.  All     *)
(* secants of this guide are rational, and the formulas (evaluated at the middle) are       *)
(* exact.  Wrong selects a defective formula.                                              *)
EXTENDS Surf
CONSTANTS N, MaxR, MaxV, MaxD, MaxK, Wrong
VARIABLES rho, v2, d, k2, w2, last
vars == <<rho, v2, d, k2, w2, last>>
S(f, g) == LET P[i \in 0..Len(f)] == IF i = 0 THEN 0 ELSE P[i - 1] + f[i] * g[i] IN P[Len(f)]
One(f) == [i \in 1..Len(f) |-> 1]
R == S(rho, One(rho))
M == S(rho, v2)
(* w2 is kept as the fraction num / den *)
Freq2(r, v, dd, kk) == << S(r, v) * (kk + dd), S(r, One(r)) >>
Init == /\ rho \in [1..N -> 1..MaxR] /\ v2 \in [1..N -> 1..MaxV] /\ d \in 0..MaxD /\ k2 \in 1..MaxK
        /\ w2 = Freq2(rho, v2, d, k2) /\ last = [kind |-> "start"]
(* along the curve: dw2/dk2 (a chord) is I2/I1, and w2 I1 = k2 I2 + I4 at both ends *)
Move == \E q \in 1..MaxK : q # k2 /\ k2' = q /\ w2' = Freq2(rho, v2, d, q) /\ UNCHANGED <<rho, v2, d>>
        /\ last' = [kind |-> "move", num |-> Freq2(rho, v2, d, q)[1] - w2[1], den |-> q - k2, formula |-> IF Wrong = 1 THEN M + d ELSE M]
(* splitting a layer changes no sum *)
Split == Len(rho) < N + 1 /\ \E i \in 1..Len(rho), a \in 1..MaxR : a < rho[i] /\
           /\ rho' = [j \in 1..(Len(rho) + 1) |-> IF j < i THEN rho[j] ELSE IF j = i THEN a ELSE IF j = i + 1 THEN rho[i] - a ELSE rho[j - 1]]
           /\ v2' = [j \in 1..(Len(rho) + 1) |-> IF j <= i THEN v2[j] ELSE v2[j - 1]]
           /\ UNCHANGED <<d, k2, w2>> /\ last' = [kind |-> "split"]
(* units: velocities by 2^g (v2 by 4^g), densities by 2^h *)
Scale == /\ last.kind = "start" /\ \E g, h \in 0..1 : /\ v2' = [i \in DOMAIN v2 |-> v2[i] * Pow2(2 * g)] /\ rho' = [i \in DOMAIN rho |-> rho[i] * Pow2(h)]
           /\ UNCHANGED <<d, k2>> /\ w2' = << w2[1] * Pow2(2 * g) * Pow2(h), w2[2] * Pow2(h) >>
           /\ last' = [kind |-> "scale", num |-> w2, g |-> << 0, g, h >>]
Next == Move \/ Split \/ Scale
Spec == Init /\ [][Next]_vars
Energy == LET f == Freq2(rho, v2, d, k2) IN f[1] * w2[2] = w2[1] * f[2]                    \* the state stays on the curve
Chord == last.kind = "move" => last.num = last.formula * last.den
(* sensitivities at fixed frequency: K_b[i] = m[i](k2 + d) per relative change of v2, K_r[i] = m[i](k2 + d) - rho[i] w2;      *)
(* exact rationals over w2's denominator                                                                                     *)
Kr(i) == rho[i] * v2[i] * (k2 + d) * w2[2] - (IF Wrong = 2 THEN v2[i] ELSE rho[i]) * w2[1]
Kv(i) == rho[i] * v2[i] * (k2 + d)
EulerOk == /\ EulerRho([i \in 1..Len(rho) |-> Kr(i)]) = 0
           /\ EulerVel([i \in 1..Len(rho) |-> Kv(i)]) = M * (k2 + d)
ScaleOk == last.kind = "scale" => w2[1] * last.num[2] = last.num[1] * Pow2(2 * (Dot(last.g, W.f) + (IF Wrong = 3 THEN last.g[3] ELSE 0))) * w2[2]
=============================================================================
