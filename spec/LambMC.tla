-------------------------------- MODULE LambMC --------------------------------
(* A record grows sample by sample while the station walks round the source: arrivals may   *)
(* only move the phase forward, each sample is the phase's tensor in the current azimuth.   *)
(* Checked: every reachable sample is the rotation of the radial one, reciprocal, and        *)
(* consistent after any sequence of turns; the phases and the static values are right.       *)
EXTENDS Lamb
CONSTANTS Max, Len4, Wrong
VARIABLES g, a, phase, n, nu
vars == <<g, a, phase, n, nu>>
Zero == [rr |-> 0, tt |-> 0, zz |-> 0, rz |-> 0]
Turns == {Ang(0, 1, 1), Ang(3, 4, 5), Ang(-4, 3, 5)}
Init == g = Zero /\ a = Ang0 /\ phase = "quiet" /\ n = 0 /\ nu \in {<<1, 4>>, <<1, 3>>, <<2, 5>>}
ToBody == phase = "quiet" /\ phase' = "body" /\ g' \in [rr : -Max..Max, tt : -Max..Max, zz : -Max..Max, rz : -Max..Max] /\ UNCHANGED <<a, n, nu>>
ToStill == phase = "body" /\ phase' = "still" /\ g' = StillG(nu[1], nu[2]) /\ UNCHANGED <<a, n, nu>>
Turn == n < Len4 /\ \E t \in Turns : a' = AddA(a, t) /\ n' = n + 1 /\ UNCHANGED <<g, phase, nu>>
Next == ToBody \/ ToStill \/ Turn
Spec == Init /\ [][Next]_vars
Obs(x) == IF Wrong = 1 THEN [Frame(g, x) EXCEPT ![3][1] = -@] ELSE Frame(g, x)
Rotated == Obs(a) = Rot(Frame(g, Ang0), a)
Reciprocal == Transpose(Obs(a)) = Obs(Opposite(a))
Quiet == phase = "quiet" => Obs(a) = [i \in 1..3 |-> [j \in 1..3 |-> 0]]
(* an incompressible medium (nu = 1/2) has no vertical motion under a horizontal force in the end *)
Incompressible == StillG(1, 2).rz = 0 /\ StillG(nu[1], nu[2]).tt = StillG(nu[1], nu[2]).zz
=============================================================================
