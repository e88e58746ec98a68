------------------------------ MODULE FiniteFault -----------------------------
(* Coulomb finite faults (property C10).  Lengths are integers (one unit).         *)
(* fault = [n0, e0, L, st, dip, top, W, kode, v1, v2, inr, rk]                      *)
(*   begins at (n0, e0), runs L along strike st, W down dip from depth top;         *)
(*   inr: v2 is the net slip and rk the rake angle                                   *)
EXTENDS Source

NTile(T, d) == (T + d - 1) \div d
TileLo(d, i) == (i - 1) * d
TileSize(T, d, i) == Min2(d, T - TileLo(d, i))
IsPointKode(k) == k \in {400, 500}

(* denominators: horizontal 2*st.h*dip.h, depth 2*dip.h                               *)
HDen(f) == 2 * f.st.h * f.dip.h
ZDen(f) == 2 * f.dip.h
(* centre of the patch whose doubled centre is (l2, w2) from the upper corner           *)
Centre(f, l2, w2) ==
  [ n |-> HDen(f) * f.n0 + l2 * f.st.c * f.dip.h - w2 * f.dip.c * f.st.s,
    e |-> HDen(f) * f.e0 + l2 * f.st.s * f.dip.h + w2 * f.dip.c * f.st.c,
    d |-> ZDen(f) * f.top + w2 * f.dip.s ]

(* strengths of the elementary sources: right-lateral, reverse, opening, inflation;     *)
(* denominator CDen                                                                      *)
CDen(f) == IF f.inr THEN f.rk.h ELSE 1
Comps(f) ==
  IF f.inr THEN << -f.v2 * f.rk.c, f.v2 * f.rk.s, 0, 0 >>
  ELSE CASE f.kode \in {100, 400} -> << f.v1, f.v2, 0, 0 >>
         [] f.kode = 200 -> << f.v1, 0, f.v2, 0 >>
         [] f.kode = 300 -> << 0, f.v2, f.v1, 0 >>
         [] f.kode = 500 -> << 0, 0, f.v1, f.v2 >>

Tiles(f, dL, dW) ==
  IF IsPointKode(f.kode) THEN << Centre(f, f.L, f.W) @@ [area |-> 1] >>
  ELSE LET nL == NTile(f.L, dL)  nW == NTile(f.W, dW) IN
       [ t \in 1..(nL * nW) |->
           LET j == ((t - 1) \div nL) + 1  k == ((t - 1) % nL) + 1
               l == TileSize(f.L, dL, k)  w == TileSize(f.W, dW, j)
           IN Centre(f, 2 * TileLo(dL, k) + l, 2 * TileLo(dW, j) + w) @@ [area |-> l * w] ]

ValidFault(f) == f.kode \in {100, 200, 300, 400, 500} /\ (f.inr => f.kode = 100) /\ f.L > 0 /\ f.W > 0 /\ f.dip.s > 0 /\ f.dip.c >= 0

(* default sub-fault size: the smallest spacing of the library in distance or depth      *)
MinGap(ax) == LET S == { ax[k + 1] - ax[k] : k \in 1..(Len(ax) - 1) } IN CHOOSE x \in S : \A y \in S : x <= y
DefaultSize(lib) == Min2(MinGap(lib.rs), MinGap(lib.ds))
SizeOf(c) == IF c.given THEN [L |-> c.dL, W |-> c.dW] ELSE [L |-> DefaultSize(c.lib), W |-> DefaultSize(c.lib)]
Plan(c) == [ k \in 1..Len(c.faults) |->
   IF ~ValidFault(c.faults[k]) THEN << >>
   ELSE LET f == c.faults[k] IN
        [ hden |-> HDen(f), zden |-> ZDen(f), comps |-> Comps(f), cden |-> CDen(f), point |-> IsPointKode(f.kode),
          tiles |-> Tiles(f, SizeOf(c).L, SizeOf(c).W) ] ]
(* a run is refused when a fault is invalid or a sub-fault centre leaves the library's depths *)
Refused(c) ==
  \/ Len(c.lib.ds) < 2 \/ c.extra
  \/ \E k \in 1..Len(c.faults) : ~ValidFault(c.faults[k])
  \/ \E k \in 1..Len(c.faults) : LET f == c.faults[k]  T == Tiles(f, SizeOf(c).L, SizeOf(c).W) IN
        \E t \in 1..Len(T) : (\E m \in 1..4 : Comps(f)[m] # 0) /\
            (T[t].d < ZDen(f) * c.lib.ds[1] \/ T[t].d > ZDen(f) * c.lib.ds[Len(c.lib.ds)])
  \/ \E k \in 1..Len(c.rcv) : c.rcv[k].d < c.lib.dr[1] \/ c.rcv[k].d > c.lib.dr[Len(c.lib.dr)]

(* ZNE gradient -> ZRT derivative table (inverse of the synthesis convention); all over    *)
(* a.h^2 and, away from the origin, over r                                                 *)
ToZRT(G, u, a, r) ==
  LET P == RotGrad(G, NegA(a))
      v == RotVec(u, NegA(a))
  IN IF r = 0
     THEN << P[1], P[2], << P[3][1], P[3][2] + P[2][3], P[3][3] - P[2][2] >> >>
     ELSE << [k \in 1..3 |-> r * P[1][k]], [k \in 1..3 |-> r * P[2][k]],
             << r * P[3][1], r * P[3][2] + a.h * v[3], r * P[3][3] - a.h * v[2] >> >>
=============================================================================
