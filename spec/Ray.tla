---------------------------------- MODULE Ray ---------------------------------
(* First arrivals in a stack of uniform layers.  A layer is <<thickness, u>> with u    *)
(* its slowness (0: the wave cannot exist there); the last one is a half-space.  All    *)
(* numbers are integers: lengths in one unit, slownesses in one unit, so times come in   *)
(* units of length * slowness.                                                            *)
(*   direct:  max over p of  p x + sum h sqrt(u^2 - p^2)      (Fermat, concave in p)      *)
(*   head:    the same at p = slowness of a layer faster than everything on the way,      *)
(*            once x is beyond the critical distance                                      *)
EXTENDS VP
(* integer square root by bisection: Lo^2 <= n < Hi^2 *)
RECURSIVE Sqrt(_, _, _)
Sqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Sqrt(n, m, hi) ELSE Sqrt(n, lo, m)
ISqrt(n) == Sqrt(n, 0, 46341)
(* h * sqrt((u-p)(u+p)), rounded; exact to a small fraction of h *)
HQ(h, u, p) ==
  IF h = 0 \/ p >= u THEN 0
  ELSE LET n == (u - p) * (u + p)  r == ISqrt(n) IN h * r + (h * (n - r * r)) \div (2 * r + 1)
Q(u, p) == ISqrt((u - p) * (u + p))
Top(m, k) == SumTo([ j \in 1..k - 1 |-> m[j][1] ], k - 1)
RECURSIVE LayerFrom(_, _, _, _)
LayerFrom(m, z, k, top) == IF k = Len(m) \/ z <= top + m[k][1] THEN k ELSE LayerFrom(m, z, k + 1, top + m[k][1])
Lay(m, z) == LayerFrom(m, z, 1, 0)
(* thickness of layer k between depths a <= b *)
Ov(m, k, a, b) == LET t == Top(m, k)  lo == Max2(t, a)  hi == IF k = Len(m) THEN b ELSE Min2(t + m[k][1], b) IN Max2(0, hi - lo)
MinU(S) == CHOOSE x \in S : \A y \in S : x <= y
Blocked(m, a, b) == \E k \in Lay(m, a)..Lay(m, b) : m[k][2] = 0
(* seg: sequence of <<h, u>> actually crossed *)
Tau(seg, p, x) == p * x + SumTo([ j \in 1..Len(seg) |-> HQ(seg[j][1], seg[j][2], p) ], Len(seg))
(* distance reached by slowness p, in sixteenths; far beyond everything at grazing *)
Reach(seg, p) == SumTo([ j \in 1..Len(seg) |-> IF seg[j][1] = 0 THEN 0 ELSE LET s == Q(seg[j][2], p) IN IF s = 0 THEN 100000000 ELSE (16 * seg[j][1] * p) \div s ], Len(seg))
RECURSIVE Climb(_, _, _, _)
Climb(seg, x, lo, hi) ==        \* the largest p in [lo, hi] that does not overshoot x
  IF hi <= lo THEN lo
  ELSE LET p == (lo + hi + 1) \div 2 IN IF Reach(seg, p) <= 16 * x THEN Climb(seg, x, p, hi) ELSE Climb(seg, x, lo, p - 1)
Between(m, a, b) == [ j \in 1..(Lay(m, b) - Lay(m, a) + 1) |-> LET k == Lay(m, a) + j - 1 IN <<Ov(m, k, a, b), m[k][2]>> ]
(* near the end of the range the maximum lies between integers: there the fastest layers contribute    *)
(* h sqrt(2 pm d) - X d  (d = pm - p, X the distance left to them), which peaks at h^2 pm / (2 X)        *)
Graze(seg, pm, x) ==
  LET hg == SumTo([ j \in 1..Len(seg) |-> IF seg[j][2] = pm THEN seg[j][1] ELSE 0 ], Len(seg))
      X == x - SumTo([ j \in 1..Len(seg) |-> IF seg[j][2] = pm \/ seg[j][1] = 0 THEN 0 ELSE (seg[j][1] * pm) \div Q(seg[j][2], pm) ], Len(seg))
  IN Tau(seg, pm, x) + IF X > 0 THEN hg * ((hg * pm) \div (2 * X)) + (hg * ((hg * pm) % (2 * X))) \div (2 * X) ELSE 0
Direct(m, a, b, x) ==
  LET seg == Between(m, a, b)
      pm == MinU({ seg[j][2] : j \in 1..Len(seg) })
      p == Climb(seg, x, 0, pm)
  IN IF p >= pm - 3 THEN Max2(Tau(seg, p, x), Graze(seg, pm, x)) ELSE Tau(seg, p, x)
(* head wave along layer k below b, or above a: crossed thicknesses, doubled where crossed twice *)
Below(m, a, b, k) == Between(m, a, b) \o [ j \in 1..(k - Lay(m, b)) |-> LET i == Lay(m, b) + j - 1 IN <<2 * Ov(m, i, b, Top(m, k)), m[i][2]>> ]
Above(m, a, b, k) == Between(m, a, b) \o [ j \in 1..(Lay(m, a) - k) |-> LET i == k + j IN <<2 * Ov(m, i, Top(m, k + 1), a), m[i][2]>> ]
Slower(seg, p) == \A j \in 1..Len(seg) : seg[j][2] > p
(* critical distance reached: sum h p / q <= x, tested without overflow *)
RECURSIVE Crit(_, _, _)
Crit(seg, p, n) == IF n = 0 THEN 0 ELSE (IF seg[n][1] = 0 THEN 0 ELSE LET s == Q(seg[n][2], p) IN (seg[n][1] * p) \div Max2(s, 1)) + Crit(seg, p, n - 1)
HeadSegs(m, a, b) ==
  { <<Below(m, a, b, k), m[k][2]>> : k \in { k \in Lay(m, b) + 1..Len(m) : m[k][2] > 0 } }
  \cup { <<Above(m, a, b, k), m[k][2]>> : k \in { k \in 1..Lay(m, a) - 1 : m[k][2] > 0 } }
Passable(seg) == \A j \in 1..Len(seg) : seg[j][2] > 0
Heads(m, a, b, x) ==
  { Tau(s[1], s[2], x) : s \in { s \in HeadSegs(m, a, b) : Passable(s[1]) /\ Slower(s[1], s[2]) /\ Crit(s[1], s[2], Len(s[1])) <= x } }
First(m, z1, z2, x) ==
  LET a == Min2(z1, z2)  b == Max2(z1, z2) IN MinU({Direct(m, a, b, x)} \cup Heads(m, a, b, x))
Avail(m, z1, z2) == ~Blocked(m, Min2(z1, z2), Max2(z1, z2))
=============================================================================
