------------------------------- MODULE TimeOps --------------------------------
(* Time-domain post-processing of synthetics (property C06), exact.              *)
(* Samples are integers; the sampling interval is 1/dtd; the damping per sample  *)
(* is 1/2 (damped) or 1 (undamped).  Scales are stated with each operator.       *)
EXTENDS VP

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

(* convolution of x (length N) with h: causal part at full weight, the part that  *)
(* wraps around the window damped by (1/2)^N (or not at all when undamped).        *)
(* value = result / (2^N * hd * dtd)  resp.  / (hd * dtd)                          *)
ConvWeight(N, damped) == IF damped THEN Pow(2, N) ELSE 1
Conv(x, h, damped) ==
  LET N == Len(x)
      L == Min2(Len(h), N)
      w == ConvWeight(N, damped)
      Term(n, k) == IF k <= n THEN w * x[n - k + 1] * h[k + 1] ELSE x[n - k + N + 1] * h[k + 1]
  IN [m \in 1..N |-> SumSeq([k \in 1..L |-> Term(m - 1, k - 1)])]

(* trapezoidal cumulative integral: value scale 1/(2*dtd)                           *)
RECURSIVE IntAcc(_, _, _)
IntAcc(x, n, acc) == IF n > Len(x) THEN acc
                     ELSE IntAcc(x, n + 1, Append(acc, acc[n - 1] + x[n] + x[n - 1]))
Integ(x) == IntAcc(x, 2, <<0>>)

(* differences: value scale dtd/2                                                    *)
Diff(x) == LET N == Len(x) IN
  [n \in 1..N |-> IF n = 1 THEN 2 * (x[2] - x[1])
                  ELSE IF n = N THEN 2 * (x[N] - x[N - 1])
                  ELSE x[n + 1] - x[n - 1]]

RECURSIVE IntegN(_, _)
IntegN(x, k) == IF k = 0 THEN x ELSE IntegN(Integ(x), k - 1)
RECURSIVE DiffN(_, _)
DiffN(x, k) == IF k = 0 THEN x ELSE DiffN(Diff(x), k - 1)

(* t: [tf (sequence, empty = none), damped, ni, nd]                                   *)
Process(x, t) == DiffN(IntegN(IF t.tf = << >> THEN x ELSE Conv(x, t.tf, t.damped), t.ni), t.nd)

(* ---- built-in time functions, as numerators over a denominator ------------------- *)
CeilDiv(a, b) == IF a <= 0 THEN 0 ELSE (a + b - 1) \div b
(* parabola of length t0 = a/(dtd*m) : ceil(a/m) intervals, unit peak, zero at ends   *)
Parabola(ni) == [n \in 1..(ni + 1) |-> 4 * (n - 1) * (ni - (n - 1))]       \* over ni^2
ParabolaDen(ni) == ni * ni
(* trapezoid rising over n1, flat over n2, falling over n3 intervals; n1 = 0 starts at 1 *)
Trapezoid(n1, n2, n3) ==
  LET r == Max2(n1, 1)  f == Max2(n3, 1) IN
  [n \in 1..(n1 + n2 + n3 + 1) |->
     LET k == n - 1 IN
     IF k < n1 THEN k * f
     ELSE IF k <= n1 + n2 THEN r * f
     ELSE r * (n1 + n2 + n3 - k)]
TrapezoidDen(n1, n2, n3) == Max2(n1, 1) * Max2(n3, 1)
(* interval counts of t1/t2/t3 = a1,a2,a3 in units of dt/m: each corner is moved up to *)
(* the sampling grid, the next leg being measured from the moved corner                *)
TrapLegs(a1, a2, a3, m) ==
  LET n1 == CeilDiv(a1, m)
      n2 == IF a1 = a2 THEN 0 ELSE CeilDiv(a2 - n1 * m, m)
      n3 == CeilDiv(a3 - (n1 + n2) * m, m)
  IN << n1, n2, n3 >>
(* Ricker wavelet (1-2a)exp(-a), a = (pi x)^2 at x = k/8, times 10^6                   *)
RickerTab == << 1000000, 592742, -126115, -443238, -333691, -142044, -39211, -7377, -969, -90, -6, 0 >>
Ricker8(k) == IF Abs(k) > 11 THEN 0 ELSE RickerTab[Abs(k) + 1]
(* dominant frequency f0 with f0*dt = m/8                                              *)
RickerLen(m) == 2 * ((8 \div m) + 1)
Ricker(m) == [n \in 1..RickerLen(m) |-> Ricker8(m * (n - 1) - 8)]

TF(f) == CASE f.kind = "none" -> << >>
           [] f.kind = "custom" -> f.h
           [] f.kind = "parabola" -> Parabola(CeilDiv(f.a, f.m))
           [] f.kind = "trapezoid" -> LET g == TrapLegs(f.a1, f.a2, f.a3, f.m) IN Trapezoid(g[1], g[2], g[3])
           [] f.kind = "ricker" -> [n \in 1..RickerLen(f.m) |-> (Ricker(f.m)[n] + 500) \div 1000]
TFDen(f) == CASE f.kind \in {"none", "custom"} -> 1
           [] f.kind = "parabola" -> ParabolaDen(CeilDiv(f.a, f.m))
           [] f.kind = "trapezoid" -> LET g == TrapLegs(f.a1, f.a2, f.a3, f.m) IN TrapezoidDen(g[1], g[2], g[3])
           [] f.kind = "ricker" -> 1000
(* the stored time function, at higher resolution for the transcendental one           *)
Sig(f) == IF f.kind = "ricker" THEN Ricker(f.m) ELSE TF(f)
SigDen(f) == IF f.kind = "ricker" THEN 1000000 ELSE TFDen(f)
=============================================================================
