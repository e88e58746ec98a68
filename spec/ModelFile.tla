------------------------------- MODULE ModelFile ------------------------------
(* A model file as a sequence of lines, the layered medium it denotes, and the       *)
(* medium at a depth.  Lengths, velocities and densities are integers in one unit.   *)
(* A line is [k, n, v]: k in {"row","skip"}, n the number of columns read, v the six  *)
(* numbers (quality factors 0 when absent).                                           *)
EXTENDS VP
Rows(f) == SelectSeq(f, LAMBDA l : l.k = "row")
RowOk(l, liquidOk) ==
  /\ l.n \in {4, 6}
  /\ l.v[2] > 0 /\ l.v[4] > 0 /\ l.v[3] >= 0
  /\ (l.n = 6) => (l.v[5] > 0 /\ l.v[6] > 0)
  /\ (l.v[3] = 0) => liquidOk
(* the first column is a top depth when the first row starts at zero *)
DepthForm(rs) == rs[1].v[1] = 0
Thick(rs, k) == IF DepthForm(rs) /\ k < Len(rs) THEN rs[k + 1].v[1] - rs[k].v[1] ELSE rs[k].v[1]
FileOk(f, liquidOk) ==
  LET rs == Rows(f) IN
  /\ Len(rs) > 0
  /\ \A k \in 1..Len(rs) : RowOk(rs[k], liquidOk)
  /\ \A k \in 1..Len(rs) - 1 : Thick(rs, k) > 0
Medium(f) == LET rs == Rows(f) IN [ k \in 1..Len(rs) |-> << Thick(rs, k), rs[k].v[2], rs[k].v[3], rs[k].v[4], rs[k].v[5], rs[k].v[6] >> ]
(* layer containing depth z; an interface belongs to the layer above; the last layer is a half-space *)
RECURSIVE LayerFrom(_, _, _, _)
LayerFrom(m, z, k, top) == IF k = Len(m) \/ z <= top + m[k][1] THEN k ELSE LayerFrom(m, z, k + 1, top + m[k][1])
LayerAt(m, z) == LayerFrom(m, z, 1, 0)
RECURSIVE TopOf(_, _)
TopOf(m, k) == IF k = 1 THEN 0 ELSE TopOf(m, k - 1) + m[k - 1][1]
MatAt(m, z) == Tail(m[LayerAt(m, z)])
Liquid(m, k) == m[k][3] = 0
OnInterface(m, z) == LayerAt(m, z) < Len(m) /\ TopOf(m, LayerAt(m, z) + 1) = z
(* a point on an interface with a liquid on either side is refused: its layer is ambiguous *)
PointOk(m, z) == ~(OnInterface(m, z) /\ (Liquid(m, LayerAt(m, z)) \/ Liquid(m, LayerAt(m, z) + 1)))
DepthsOk(m, zs, zr) == zs >= 0 /\ zr >= 0 /\ PointOk(m, zs) /\ PointOk(m, zr)
(* vertical time between two depths, in units of Unit/(velocity unit) rounded down per layer *)
Overlap(m, k, a, b) ==
  LET t == TopOf(m, k)  lo == Max2(t, a)  hi == IF k = Len(m) THEN b ELSE Min2(t + m[k][1], b) IN Max2(0, hi - lo)
RECURSIVE VertTo(_, _, _, _, _, _)
VertTo(m, k, a, b, col, unit) ==
  IF k = 0 THEN 0
  ELSE (IF Overlap(m, k, a, b) = 0 THEN 0 ELSE (Overlap(m, k, a, b) * unit) \div m[k][col]) + VertTo(m, k - 1, a, b, col, unit)
VertTime(m, zs, zr, col, unit) == VertTo(m, Len(m), Min2(zs, zr), Max2(zs, zr), col, unit)
(* S cannot pass when a liquid lies between (or holds) the two points *)
SBlocked(m, zs, zr) == \E k \in LayerAt(m, Min2(zs, zr))..LayerAt(m, Max2(zs, zr)) : Liquid(m, k)
=============================================================================
