----------------------------- MODULE ResidueTrace -----------------------------
(* "modes": one frequency of a modal Green's function against the sum over its modes.       *)
(* "wave": the surface waves of a modal Green's function against those of wavenumber         *)
(* integration (projection and remainder, per mille).                                         *)
EXTENDS Residue, TraceRun
ModesOk(r) == LET e == OfModes(r.src, r.comp, r.modes, Len(r.modes)) IN Abs(e[1] - r.obs[1]) <= r.tol /\ Abs(e[2] - r.obs[2]) <= r.tol
WaveOk(r) == Abs(r.proj - 1000) <= r.tol /\ r.rest <= r.resttol
Ok(r) == r.ok /\ CASE r.kind = "modes" -> ModesOk(r) [] r.kind = "wave" -> WaveOk(r) [] OTHER -> FALSE
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
