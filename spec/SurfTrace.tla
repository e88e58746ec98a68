------------------------------ MODULE SurfTrace ------------------------------
(* kind "slope": reported group velocities against chords of the reported dispersion (two *)
(* step sizes).  "chord": sensitivities against chords of c (or U) between models that    *)
(* differ in one value.  "euler": the sums over layers.  "scale": the same guide in other *)
(* units.  "sum": the sensitivities of sub-layers add up to those of the layer.           *)
(* "flat": residuals of the equation of motion, the surface conditions and the energy     *)
(* balance vanish.  "same": the same quantity obtained in two ways.                       *)
EXTENDS Surf, TraceRun
(* a formula's value against chords with step 1 and 1/2: their difference bounds what the step leaves out *)
ByChord(x, s1, s2, tol) == Abs(x - s2) <= tol + Abs(s1 - s2)
ChordOk(r) == Len(r.x) = Len(r.s1) /\ Len(r.x) = Len(r.s2) /\ \A j \in 1..Len(r.x) : ByChord(r.x[j], r.s1[j], r.s2[j], r.tol)
EulerOk(r) == Abs(EulerRho(r.rho)) <= r.tol /\ Abs(EulerVel(r.vel) - r.want) <= r.tol
ScaleOk(r) == Len(r.x) = Len(r.y) /\ \A j \in 1..Len(r.x) : ScalesTo(r.x[j], Dot(r.g, W[r.q]), r.y[j], r.tol)
SumOk(r) == \A j \in 1..Len(r.x) : Abs(SumSeq(r.parts[j]) - r.x[j]) <= r.tol
FlatOk(r) == \A j \in 1..Len(r.x) : Abs(r.x[j]) <= r.tol
SameOk(r) == Len(r.x) = Len(r.y) /\ \A j \in 1..Len(r.x) : Abs(r.x[j] - r.y[j]) <= r.tol
Ok(r) == r.ok /\ CASE r.kind = "chord" -> ChordOk(r) [] r.kind = "euler" -> EulerOk(r) [] r.kind = "scale" -> ScaleOk(r)
                   [] r.kind = "sum" -> SumOk(r) [] r.kind = "flat" -> FlatOk(r) [] r.kind = "same" -> SameOk(r)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
