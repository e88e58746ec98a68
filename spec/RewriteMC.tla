------------------------------- MODULE RewriteMC -------------------------------
EXTENDS Rewrite
CONSTANTS MaxLay, Starts
VARIABLES d, d0
(* materials: 1, 2, 3 solids; 0 liquid *)
S1 == [lay |-> << <<4, 1>> >>, half |-> 2, form |-> "thk", deco |-> 0]
S2 == [lay |-> << <<2, 1>>, <<3, 3>> >>, half |-> 2, form |-> "thk", deco |-> 0]
S3 == [lay |-> << <<2, 1>>, <<2, 3>>, <<3, 2>> >>, half |-> 3, form |-> "thk", deco |-> 0]
S4 == [lay |-> << <<2, 0>>, <<4, 1>> >>, half |-> 2, form |-> "thk", deco |-> 0]
S5 == [lay |-> << <<3, 1>> >>, half |-> 1, form |-> "thk", deco |-> 0]
SQ == {S1, S2, S3, S4, S5}
Init == d0 \in Starts /\ d = d0
DoSplit == \E k \in 1..Len(d.lay) : \E h \in 1..6 : Len(d.lay) < MaxLay /\ CanSplit(d, k, h) /\ d' = Split(d, k, h)
DoMerge == \E k \in 1..Len(d.lay) : CanMerge(d, k) /\ d' = Merge(d, k)
DoExtend == \E h \in {1, 3} : Len(d.lay) < MaxLay /\ Total(d.lay) + h <= 14 /\ d' = Extend(d, h)
DoAbsorb == CanAbsorb(d) /\ d' = Absorb(d)
DoForm == d' = [d EXCEPT !.form = IF d.form = "thk" THEN "dep" ELSE "thk"]
DoDeco == d' = [d EXCEPT !.deco = (d.deco + 1) % 3]
Next == UNCHANGED d0 /\ (DoSplit \/ DoMerge \/ DoExtend \/ DoAbsorb \/ DoForm \/ DoDeco)
Spec == Init /\ [][Next]_<<d, d0>>
SameMedium == Profile(d, 20) = Profile(d0, 20)
WellFormed == Len(d.lay) >= 1 /\ \A k \in 1..Len(d.lay) : d.lay[k][1] > 0
(* every description of the medium can be brought to one canonical description *)
RECURSIVE Canon(_, _)
Canon(x, k) == IF k >= Len(x.lay) THEN x ELSE IF CanMerge(x, k) THEN Canon(Merge(x, k), k) ELSE Canon(x, k + 1)
RECURSIVE Trim(_)
Trim(x) == IF CanAbsorb(x) THEN Trim(Absorb(x)) ELSE x
Confluent == LET a == Trim(Canon(d, 1))  b == Trim(Canon(d0, 1)) IN a.lay = b.lay \/ (Len(a.lay) = 1 /\ Len(b.lay) = 1 /\ a.half = b.half /\ a.lay[1][2] = a.half)
EmitD == Emit([start |-> d0, to |-> d])
=============================================================================
