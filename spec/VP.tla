--------------------------------- MODULE VP ---------------------------------
(* Common operators: integer arithmetic helpers, exact angles, tolerance      *)
(* comparison of quantised observations, JSON emission.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(s) == SumTo(s, Len(s))

RECURSIVE MaxTo(_, _)
MaxTo(f, n) == IF n = 1 THEN f[1] ELSE Max2(f[n], MaxTo(f, n - 1))
MaxSeq(s) == MaxTo(s, Len(s))

Range(s) == { s[i] : i \in 1..Len(s) }

(* An angle is a record [c, s, h]: cosine c/h, sine s/h, with c^2+s^2=h^2.     *)
Ang(c, s, h) == [c |-> c, s |-> s, h |-> h]
Ang0 == Ang(1, 0, 1)
IsAngle(a) == a.h > 0 /\ a.c * a.c + a.s * a.s = a.h * a.h
NegA(a) == Ang(a.c, -a.s, a.h)
AddA(a, b) == Ang(a.c * b.c - a.s * b.s, a.s * b.c + a.c * b.s, a.h * b.h)

(* obs is a quantised measurement of the exact integer exp: float32 storage    *)
(* and rounding leave a relative error; 2 units cover quantisation.            *)
Near(obs, exp, absTol, relDen) ==
  Abs(obs - exp) <= absTol + (Abs(exp) \div relDen)

NearSeq(o, e, absTol, relDen) ==
  /\ Len(o) = Len(e)
  /\ \A i \in 1..Len(o) : Near(o[i], e[i], absTol, relDen)

Emit(v) == PrintT("VPJ" \o ToJson(v))
=============================================================================
