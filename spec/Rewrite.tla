-------------------------------- MODULE Rewrite --------------------------------
(* A description of a medium is a sequence of <<thickness, material>> over a half-space *)
(* material, written with thicknesses or with depths of layer tops, with or without      *)
(* comments.  The rewrites below change the description only: the material at every depth *)
(* stays what it was, so everything computed from it has to stay as well.                 *)
EXTENDS VP
(* description: [lay |-> <<<<h, m>>, ...>>, half |-> m, form |-> "thk"|"dep", deco |-> 0..3]; depths in half units *)
RECURSIVE At(_, _, _, _)
At(lay, half, k, z) == IF k > Len(lay) THEN half ELSE IF z < lay[k][1] THEN lay[k][2] ELSE At(lay, half, k + 1, z - lay[k][1])
Total(lay) == SumTo([k \in 1..Len(lay) |-> lay[k][1]], Len(lay))
MatAt(d, z) == At(d.lay, d.half, 1, z)
Profile(d, zmax) == [z \in 0..zmax |-> MatAt(d, z)]
Insert(s, k, e) == SubSeq(s, 1, k - 1) \o e \o SubSeq(s, k + 1, Len(s))
Split(d, k, h) == [d EXCEPT !.lay = Insert(d.lay, k, << <<h, d.lay[k][2]>>, <<d.lay[k][1] - h, d.lay[k][2]>> >>)]
CanSplit(d, k, h) == h > 0 /\ h < d.lay[k][1]
Merge(d, k) == [d EXCEPT !.lay = Insert(SubSeq(d.lay, 1, k) \o SubSeq(d.lay, k + 2, Len(d.lay)), k, << <<d.lay[k][1] + d.lay[k + 1][1], d.lay[k][2]>> >>)]
CanMerge(d, k) == k < Len(d.lay) /\ d.lay[k][2] = d.lay[k + 1][2]
Extend(d, h) == [d EXCEPT !.lay = Append(d.lay, <<h, d.half>>)]
Absorb(d) == [d EXCEPT !.lay = SubSeq(d.lay, 1, Len(d.lay) - 1)]
CanAbsorb(d) == Len(d.lay) > 1 /\ d.lay[Len(d.lay)][2] = d.half
=============================================================================
