------------------------------ MODULE ModelFileMC -----------------------------
(* Files written line by line, read by an incremental reader and turned into the      *)
(* computational layering with two virtual interfaces (shallower point first).  The   *)
(* layering must not change the medium, and must place both points in their layers.   *)
EXTENDS ModelFile
CONSTANTS MaxRows, MaxDepth, Forms
VARIABLES file, zs, zr, lay, phase
vars == <<file, zs, zr, lay, phase>>
Mat(x) == CASE x = "A" -> <<4, 2, 2>> [] x = "B" -> <<6, 3, 3>> [] x = "W" -> <<1, 0, 1>>
Row(h, x, n) == [k |-> "row", n |-> n, v |-> <<h, Mat(x)[1], Mat(x)[2], Mat(x)[3], IF n = 6 THEN 500 ELSE 0, IF n = 6 THEN 200 ELSE 0>>]
Skip == [k |-> "skip", n |-> 0, v |-> <<0, 0, 0, 0, 0, 0>>]
Bad(rs) == { [rs EXCEPT !.n = 5], [rs EXCEPT !.n = 3], [rs EXCEPT !.v[2] = 0], [rs EXCEPT !.v[3] = -1], [rs EXCEPT !.v[4] = 0],
             [rs EXCEPT !.v[1] = -2], [rs EXCEPT !.n = 6, !.v[5] = -1, !.v[6] = 200], [rs EXCEPT !.n = 6, !.v[5] = 500, !.v[6] = 0] }
Init == file = << >> /\ zs = 0 /\ zr = 0 /\ lay = << >> /\ phase = "write"
NR == Len(Rows(file))
Good(n, x, h) == IF NR > 0 /\ DepthForm(Rows(file)) THEN Row(Rows(file)[NR].v[1] + h, x, n) ELSE Row(h, x, n)
Write == /\ phase = "write" /\ NR < MaxRows
         /\ \E x \in {"A", "B", "W"}, h \in (IF NR = 0 THEN {0, 2} ELSE {0, 2, 4}), n \in Forms :
              /\ NR > 0 => Rows(file)[1].n = n
              /\ \E l \in {Good(n, x, h)} \cup (IF h = 2 /\ x = "A" /\ NR > 0 THEN Bad(Good(n, x, h)) ELSE {}) : file' = Append(file, l)
         /\ UNCHANGED <<zs, zr, lay, phase>>
Comment == phase = "write" /\ Len(file) = NR /\ NR < 2 /\ file' = Append(file, Skip) /\ UNCHANGED <<zs, zr, lay, phase>>
Ask == /\ phase = "write" /\ Len(file) > 0
       /\ \E a \in 0..MaxDepth, b \in 0..MaxDepth : (a + b < 2 * MaxDepth) /\ zs' = a /\ zr' = b
       /\ phase' = IF FileOk(file, TRUE) /\ DepthsOk(Medium(file), zs', zr') THEN "layer" ELSE "refused"
       /\ UNCHANGED <<file, lay>>
(* split layer list m at depth z: [list, index of the layer that starts at z] *)
SplitAt(m, z, base) ==
  LET k == LayerAt(m, z)  up == [m[k] EXCEPT ![1] = z - TopOf(m, k)]
      dn == [m[k] EXCEPT ![1] = IF k = Len(m) THEN 1000 ELSE m[k][1] - (z - TopOf(m, k))]
  IN [l |-> SubSeq(m, 1, k - 1) \o <<up, dn>> \o SubSeq(m, k + 1, Len(m)), ix |-> k + 1]
Layering(m, a, b) ==      \* a <= b
  LET s == SplitAt(m, a, 0)  lo == SubSeq(s.l, s.ix, Len(s.l))
      t == SplitAt([ j \in 1..Len(lo) |-> lo[j] ], b - a, 0)
  IN [l |-> SubSeq(s.l, 1, s.ix - 1) \o t.l, imin |-> s.ix, imax |-> s.ix - 1 + t.ix]
Insert == /\ phase = "layer"
          /\ lay' = <<Layering(Medium(file), Min2(zs, zr), Max2(zs, zr))>> /\ phase' = "done" /\ UNCHANGED <<file, zs, zr>>
Next == Write \/ Comment \/ Ask \/ Insert
Spec == Init /\ [][Next]_vars
L == lay[1].l
(* ---- properties ---- *)
Points == phase = "done" =>
  /\ TopOf(L, lay[1].imin) = Min2(zs, zr) /\ TopOf(L, lay[1].imax) = Max2(zs, zr)
  /\ lay[1].imin > 1 /\ lay[1].imax > lay[1].imin
  /\ Tail(L[lay[1].imin]) = MatAt(Medium(file), Min2(zs, zr)) /\ Tail(L[lay[1].imax]) = MatAt(Medium(file), Max2(zs, zr))
SameMedium == phase = "done" => \A z \in 0..MaxDepth + 1 : MatAt(L, z) = MatAt(Medium(file), z)
SameTime == phase = "done" => VertTime(L, zs, zr, 2, 1000) <= VertTime(Medium(file), zs, zr, 2, 1000) + 4
FormsAgree == (phase = "done" /\ DepthForm(Rows(file))) =>
  LET rs == Rows(file)  g == [ k \in 1..Len(rs) |-> [rs[k] EXCEPT !.v[1] = IF k < Len(rs) THEN Thick(rs, k) ELSE 7] ]
  IN \A z \in 0..MaxDepth + 1 : MatAt(Medium(g), z) = MatAt(Medium(file), z)
CommentsIgnored == phase = "done" => Medium(file) = Medium(Rows(file))
Inv == Points /\ SameMedium /\ SameTime /\ FormsAgree /\ CommentsIgnored
EmitDone == (phase \in {"done", "refused"}) => Emit([file |-> file, zs |-> zs, zr |-> zr])
=============================================================================
