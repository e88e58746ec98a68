------------------------------ MODULE QuadTrace -----------------------------
(* kind "val": a trace computed by two schemes, in 1e-6 of the family's maximum    *)
(* kind "plan": the wavenumbers recorded by -S.  d: those of the first part, in     *)
(*   1e-4 of the step asked for; kmax, kcut in the same unit; f: those of the FIM   *)
(*   part relative to where its step before the first one would be, in 1e-4 of its step; a: those of  *)
(*   the SAFIM part in 2^-26 of its interval.                                       *)
EXTENDS Schemes, TraceRun
U == 10000
ValOk(r) == \A k \in 1..Len(r.x) : Abs(r.x[k] - r.y[k]) <= Max2(r.tol, 3)

NSteps(lim) == lim \div U + 1
UniformOk(d, lim, tol) ==
   /\ \A j \in 1..Len(d) : Abs(d[j] - j * U) <= tol + (j * tol) \div 1000
   \* the quotient may fall on either side when the limit is a multiple of the step
   /\ Len(d) \in {NSteps(lim - 2 - lim \div 1000000), NSteps(lim + 2 + lim \div 1000000)}

W == 67108864
RECURSIVE Tiles(_, _, _)
Pow2(w) == \E e \in 2..26 : w = 2 ^ e
Tiles(a, j, p) ==      \* p: end of the accepted pieces so far; a[j] is the next sample
   IF j > Len(a) THEN p = W
   ELSE IF j + 3 > Len(a) THEN FALSE
   ELSE LET q == a[j] - p IN
        /\ q > 0 /\ a[j + 1] - a[j] = q /\ a[j + 2] - a[j + 1] = q /\ a[j + 3] - a[j + 2] = q
        /\ Pow2(4 * q) /\ p % (4 * q) = 0
        /\ Tiles(a, j + 4, p + 4 * q)
PlanOk(r) ==
   /\ IF r.mode = "D" THEN UniformOk(r.d, r.kmax, 3)
      ELSE IF r.kcut = 0 THEN Len(r.d) = 0 ELSE UniformOk(r.d, Min2(r.kcut, r.kmax), 3)
   /\ (r.mode = "F" /\ Len(r.f) > 0 => UniformOk(r.f, r.fmax, 3))
   /\ (r.mode = "F" /\ Len(r.f) = 0 => Len(r.d) * U + U >= r.kmax)
   /\ (r.mode = "A" /\ Len(r.a) > 0 => r.a[1] = 0 /\ Tiles(r.a, 2, 0))
   /\ (r.mode = "A" /\ Len(r.a) = 0 => Len(r.d) * U + U >= r.kmax)
FiniteOk(r) == r.bad = 0
Ok(r) == r.ok /\ CASE r.kind = "val" -> ValOk(r) [] r.kind = "plan" -> PlanOk(r) [] OTHER -> FiniteOk(r)

TNext == TGuard /\ TJudge(Ok(Recs[i])) /\ UNCHANGED cur
TSpec == TInit /\ cur = 0 /\ [][TNext]_<<c, i, cur>>
=============================================================================
