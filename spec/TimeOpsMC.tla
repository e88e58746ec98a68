------------------------------ MODULE TimeOpsMC -------------------------------
(* Pipeline convolve -> integrate* -> differentiate* over all small traces.        *)
EXTENDS TimeOps
CONSTANTS Vals, HVals, NMax
VQ == {-1, 0, 2}
HQ == {0, 1, -3}
HD == {1, -3}
VARIABLES phase, x0, h, damped, ni, nd, x, done
vars == <<phase, x0, h, damped, ni, nd, x, done>>

Seqs(S, lo, hi) == UNION { [1..n -> S] : n \in lo..hi }
Init == /\ phase = "conv" /\ x0 \in Seqs(Vals, 3, NMax) /\ h \in ({<< >>} \cup Seqs(HVals, 1, NMax + 1))
        /\ damped \in BOOLEAN /\ ni \in 0..2 /\ nd \in 0..1 /\ x = x0 /\ done = <<0, 0>>
Convolve == /\ phase = "conv" /\ phase' = "ops"
            /\ x' = IF h = << >> THEN x ELSE Conv(x, h, damped)
            /\ UNCHANGED <<x0, h, damped, ni, nd, done>>
Integrate == /\ phase = "ops" /\ done[1] < ni /\ x' = Integ(x) /\ done' = <<done[1] + 1, done[2]>>
             /\ UNCHANGED <<phase, x0, h, damped, ni, nd>>
Differentiate == /\ phase = "ops" /\ done[1] = ni /\ done[2] < nd
                 /\ x' = Diff(x) /\ done' = <<done[1], done[2] + 1>>
                 /\ UNCHANGED <<phase, x0, h, damped, ni, nd>>
Next == Convolve \/ Integrate \/ Differentiate
Spec == Init /\ [][Next]_vars
Finished == phase = "ops" /\ done = <<ni, nd>>

Closed == Finished => x = Process(x0, [tf |-> h, damped |-> damped, ni |-> ni, nd |-> nd])
(* convolving with a unit sample is the identity (up to the stated scale)             *)
Identity == (phase = "conv" /\ h # << >>) =>
  /\ Conv(x0, <<1>>, damped) = [n \in 1..Len(x0) |-> ConvWeight(Len(x0), damped) * x0[n]]
  \* causal part does not see samples of h later than the window
  /\ Conv(x0, h, damped) = Conv(x0, SubSeq(h, 1, Min2(Len(h), Len(x0))), damped)
(* with the trace at rest in its second half and a short h, nothing wraps: damping     *)
(* is irrelevant                                                                       *)
NoWrap == (phase = "conv" /\ h # << >> /\ Len(h) <= 2 /\ x0[Len(x0)] = 0) =>
  LET a == Conv(x0, h, TRUE)  b == Conv(x0, h, FALSE) IN
  \A n \in 1..Len(x0) : a[n] = Pow(2, Len(x0)) * b[n]
(* differentiating the integral smooths with (1,2,1)/4 inside the window               *)
DI == phase = "conv" =>
  LET y == Diff(Integ(x0)) IN
  \A n \in 2..(Len(x0) - 1) : y[n] = x0[n - 1] + 2 * x0[n] + x0[n + 1]
StartsAtZero == (Finished /\ ni > 0 /\ nd = 0) => x[1] = 0
Inv == Closed /\ Identity /\ NoWrap /\ DI /\ StartsAtZero

ASSUME \A n \in 1..6 : LET p == Parabola(n) IN p[1] = 0 /\ p[n + 1] = 0 /\ (n % 2 = 0 => p[n \div 2 + 1] = ParabolaDen(n))
ASSUME \A a \in 0..3, b \in 0..3, f \in 0..3 :
  LET t == Trapezoid(a, b, f) IN MaxSeq(t) = TrapezoidDen(a, b, f) /\ (a > 0 => t[1] = 0) /\ (f > 0 => t[Len(t)] = 0)
ASSUME \A m \in 1..3 : MaxSeq(Ricker(m)) <= 1000000 /\ (8 % m = 0 => Ricker(m)[8 \div m + 1] = 1000000)
=============================================================================
