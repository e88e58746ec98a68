-------------------------------- MODULE Window --------------------------------
(* The time window of a synthetic.  A run stores a half spectrum W[0..NF-1] of a  *)
(* motion with period T; a request (start, number of samples, upsampling) picks    *)
(* instants of that one motion.  Arithmetic is exact in Z[zeta], zeta = e^(i pi/6):*)
(* an element is <<a,b,c,d>> = a + b zeta + c zeta^2 + d zeta^3, so transforms of   *)
(* 1, 2, 3, 4, 6 and 12 samples need no rounding.                                   *)
EXTENDS VP
Z0 == <<0, 0, 0, 0>>
ZAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4]>>
ZNeg(a) == <<-a[1], -a[2], -a[3], -a[4]>>
ZSub(a, b) == ZAdd(a, ZNeg(b))
Rot1(a) == <<-a[4], a[1], a[2] + a[4], a[3]>>                \* zeta^4 = zeta^2 - 1
Rot3(a) == <<-a[2] - a[4], -a[3], a[2], a[1] + a[3]>>                                  \* a * i:  zeta^3
Rot(a, k) == LET q == k % 12                                   \* a * zeta^k, any integer k
                 h == IF q >= 6 THEN ZNeg(a) ELSE a
                 t == IF q % 6 >= 3 THEN Rot3(h) ELSE h
             IN CASE q % 3 = 0 -> t [] q % 3 = 1 -> Rot1(t) [] OTHER -> Rot1(Rot1(t))
Pow(k) == Rot(<<1, 0, 0, 0>>, k)
ZScale(n, a) == <<n * a[1], n * a[2], n * a[3], n * a[4]>>
Conj(a) == ZAdd(ZAdd(ZScale(a[1], Pow(0)), ZScale(a[2], Pow(11))), ZAdd(ZScale(a[3], Pow(10)), ZScale(a[4], Pow(9))))
Re2(a) == ZAdd(a, Conj(a))                                     \* twice the real part
RECURSIVE ZSum(_, _, _)
ZSum(f(_), lo, hi) == IF lo > hi THEN Z0 ELSE ZAdd(f(lo), ZSum(f, lo + 1, hi))

NF(N) == N \div 2 + 1
(* W : 0..NF(N)-1 -> Z[zeta].  The motion at instant j (in T/12), twice its value: the *)
(* zero frequency and, for an even number of samples, the last frequency have no        *)
(* separate conjugate partner.                                                          *)
Single(N, k) == k = 0 \/ (N % 2 = 0 /\ k = N \div 2)
Motion(W, N, j) == ZSum(LAMBDA k : IF Single(N, k) THEN Re2(Rot(W[k], k * j)) ELSE ZScale(2, Re2(Rot(W[k], k * j))), 0, NF(N) - 1)

(* What the program computes: multiply by the phase of the start time, pad to M = N*up   *)
(* samples, complex-to-real transform in which only bins 0 and M/2 count once.           *)
Padded(W, N, up, s, halve) ==
  [k \in 0..NF(N * up) - 1 |->
     IF k >= NF(N) THEN Z0
     ELSE IF halve /\ up > 1 /\ N % 2 = 0 /\ k = N \div 2 THEN Rot(W[k], k * s)      \* halved: see C2R
     ELSE ZScale(2, Rot(W[k], k * s))]
(* twice the transform of (padded / 2) *)
Half(a) == <<a[1] \div 2, a[2] \div 2, a[3] \div 2, a[4] \div 2>>
C2R(P, M, m) == ZSum(LAMBDA k : IF Single(M, k) THEN ZScale(1, Half(Re2(Rot(P[k], k * m * (12 \div M)))))
                                ELSE Re2(Rot(P[k], k * m * (12 \div M))), 0, NF(M) - 1)
Computed(W, N, up, s, halve, m) == C2R(Padded(W, N, up, s, halve), N * up, m)

(* ---- relations between requests (all follow from Motion being one function) ---- *)
SampleIs(W, N, up, s) == \A m \in 0..N * up - 1 : Computed(W, N, up, s, TRUE, m) = Motion(W, N, s + m * (12 \div (N * up)))
(* a window of half the length, computed from every second frequency, is the longer one folded (instants in T/12) *)
Every2(V, N) == [k \in 0..NF(N) - 1 |-> V[2 * k]]
Folds(V, N) == \A j \in 0..N - 1 :
   LET st == 12 \div (2 * N) IN
   ZScale(2, Motion(Every2(V, N), N, 2 * st * j)) = ZAdd(Motion(V, 2 * N, st * j), Motion(V, 2 * N, st * (j + N)))
(* restricting to bands: bands that partition the frequencies add up *)
Band(W, N, lo, hi) == [k \in 0..NF(N) - 1 |-> IF lo <= k /\ k <= hi THEN W[k] ELSE Z0]
BandsAdd(W, N, c) == \A j \in 0..11 : Motion(W, N, j) = ZAdd(Motion(Band(W, N, 0, c), N, j), Motion(Band(W, N, c + 1, N), N, j))

(* ---- instants of a request, in ticks: start b, step d, n samples, period P ---- *)
At(r, i) == r.b + (i - 1) * r.d
(* the sample of run r nearest after instant t modulo the period, with the number of periods between *)
Index(r, t, P) == ((t - r.b) % P) \div r.d + 1
Hits(r, t, P) == ((t - r.b) % P) % r.d = 0 /\ Index(r, t, P) <= r.n
Wraps(r, t, P) == (t - At(r, Index(r, t, P))) \div P
=============================================================================
