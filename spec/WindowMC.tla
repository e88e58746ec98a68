------------------------------- MODULE WindowMC -------------------------------
(* Every relation is linear in the spectrum, so the unit spectra (one bin, 1 or i) *)
(* decide it for all spectra of that length.  Requests are built step by step; each *)
(* reachable one is emitted for replay.                                             *)
EXTENDS Window
CONSTANTS Halve, EmitOn
VARIABLES N, W, up, s
vars == <<N, W, up, s>>
Lens == {1, 2, 3, 4, 6, 12}
Unit(n, k, v) == [x \in 0..NF(n) - 1 |-> IF x = k THEN v ELSE Z0]
Init == /\ N \in Lens
        /\ \E k \in 0..NF(N) - 1 : \E v \in {Pow(0), Pow(3)} : W = Unit(N, k, v)
        /\ up = 1 /\ s = 0
Shift == \E d \in {-5, -1, 1, 2, 3, 7} : /\ s + d \in -11..11 /\ s' = s + d /\ UNCHANGED <<N, W, up>>
Upsample == \E u \in {2, 3, 4} : /\ 12 % (N * up * u) = 0 /\ up' = up * u /\ UNCHANGED <<N, W, s>>
Next == Shift \/ Upsample
Spec == Init /\ [][Next]_vars
OneMotion == \A m \in 0..N * up - 1 : Computed(W, N, up, s, Halve, m) = Motion(W, N, s + m * (12 \div (N * up)))
First == up = 1 /\ s = 0
Folding == (First /\ N % 2 = 0) => Folds(W, N \div 2)
Bands == First => \A c \in 0..NF(N) - 1 : BandsAdd(W, N, c)
Periodic == First => \A j \in 0..11 : Motion(W, N, j) = Motion(W, N, j + 12) /\ Conj(Motion(W, N, j)) = Motion(W, N, j)
(* instants: every sample of an upsampled request hits the base request's grid every up-th time *)
Req == [b |-> s, d |-> 12 \div (N * up), n |-> N * up]
Base == [b |-> 0, d |-> 12 \div N, n |-> N]
Instants == \A j \in 1..Req.n : Hits(Req, At(Req, j), 12) /\ Index(Req, At(Req, j), 12) = j /\ Wraps(Req, At(Req, j), 12) = 0
            /\ (Hits(Base, At(Req, j), 12) => At(Base, Index(Base, At(Req, j), 12)) + 12 * Wraps(Base, At(Req, j), 12) = At(Req, j))
EmitReq == (EmitOn /\ W = Unit(N, 0, Pow(0))) => Emit([N |-> N, up |-> up, s |-> s])
=============================================================================
