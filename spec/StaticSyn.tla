------------------------------- MODULE StaticSyn ------------------------------
(* Static synthesis from a library (property C09).                               *)
(* lib = [ds, dr, rs: ascending integer axes, g/gz/gr[is][ir][ix]: six families   *)
(*        of <<Z,R,T>>, vr[is], mu[is]: source media]                             *)
(* q   = [src, k, su, ds, hasds, dr, hasdr, layout, zne, upar]                     *)
(* p   = [n, e, d]: one receiver with integer coordinates and integer distance     *)
EXTENDS Syn

InAxis(ax, x) == IF Len(ax) = 1 THEN x = ax[1] ELSE ax[1] <= x /\ x <= ax[Len(ax)]
(* bracketing samples and the weight num/den of the upper one                       *)
Bracket(ax, x) ==
  IF \E i \in 1..Len(ax) : ax[i] = x
  THEN LET i == CHOOSE j \in 1..Len(ax) : ax[j] = x IN [i0 |-> i, i1 |-> i, num |-> 0, den |-> 1]
  ELSE LET i == CHOOSE j \in 1..(Len(ax) - 1) : ax[j] < x /\ x < ax[j + 1]
       IN [i0 |-> i, i1 |-> i + 1, num |-> x - ax[i], den |-> ax[i + 1] - ax[i]]
CornersOf(B) == IF B.i0 = B.i1 THEN { <<B.i0, 1>> } ELSE { <<B.i0, B.den - B.num>>, <<B.i1, B.num>> }

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
ISqrt(x) == CHOOSE r \in 0..x : r * r = x       \* only used on perfect squares
(* direction of a receiver, in lowest terms                                          *)
DirOf(p) == IF p.r = 0 THEN Ang0
            ELSE LET f == GCD(p.r, GCD(Abs(p.n), Abs(p.e))) IN Ang(p.n \div f, p.e \div f, p.r \div f)

SrcAt(q, lib, is) == IF q.src.type = "TS" THEN [q.src EXCEPT !.vr = lib.vr[is]] ELSE q.src
NodeCfg(lib, q, p, is, ix) ==
  LET base == [src |-> SrcAt(q, lib, is), az |-> DirOf(p), dist |-> lib.rs[ix], zne |-> q.zne, upar |-> q.upar,
               k |-> q.k * (IF q.su THEN lib.mu[is] ELSE 1)]
  IN IF p.r # 0 THEN base @@ [keepaz |-> TRUE] ELSE base

(* ---- what must be refused -------------------------------------------------------- *)
SourceDepth(lib, q) == IF q.hasds THEN q.ds ELSE lib.ds[1]
GridDepth(lib, q) == IF q.hasdr THEN q.dr ELSE lib.dr[1]
Refused(lib, q, pts) ==
  \/ (Len(lib.ds) > 1 /\ ~q.hasds)
  \/ (q.layout # "points" /\ Len(lib.dr) > 1 /\ ~q.hasdr)
  \/ (q.layout = "points" /\ q.hasdr)
  \/ ~InAxis(lib.ds, SourceDepth(lib, q))
  \/ \E i \in 1..Len(pts) : ~InAxis(lib.dr, pts[i].d)

Beyond(lib, p) == p.r < lib.rs[1] \/ p.r > lib.rs[Len(lib.rs)]

(* ---- interpolation ---------------------------------------------------------------- *)
EffR(lib, ix) == IF lib.rs[ix] = 0 THEN 1 ELSE lib.rs[ix]
RScale(lib, X) == IF X.i0 = X.i1 THEN EffR(lib, X.i0) ELSE EffR(lib, X.i0) * EffR(lib, X.i1)
ZeroM == << <<0,0,0>>, <<0,0,0>>, <<0,0,0>> >>
Add3(a, b) == << a[1]+b[1], a[2]+b[2], a[3]+b[3] >>
AddM(a, b) == << Add3(a[1], b[1]), Add3(a[2], b[2]), Add3(a[3], b[3]) >>
ScaleM(k, a) == << Scale3(k, a[1]), Scale3(k, a[2]), Scale3(k, a[3]) >>

(* one (source depth, receiver depth, distance) corner with integer weight w           *)
CornerTerm(lib, q, p, X, is, ir, ix, w) ==
  LET c == NodeCfg(lib, q, p, is, ix)
      g == lib.g[is][ir][ix]  gz == lib.gz[is][ir][ix]  gr == lib.gr[is][ir][ix]
  IN [ u |-> Scale3(w, SynU(c, g)),
       d |-> IF q.upar THEN ScaleM(w * (RScale(lib, X) \div EffR(lib, ix)), SynD(c, g, gz, gr)) ELSE ZeroM ]

AddTerm(a, b) == [u |-> Add3(a.u, b.u), d |-> AddM(a.d, b.d)]
ZeroTerm == [u |-> <<0,0,0>>, d |-> ZeroM]
RECURSIVE SumTerms(_, _)
SumTerms(f, S) == IF S = {} THEN ZeroTerm
                  ELSE LET x == CHOOSE y \in S : TRUE IN AddTerm(f[x], SumTerms(f, S \ {x}))

Corners(lib, q, p) ==
  LET S == Bracket(lib.ds, SourceDepth(lib, q))  R == Bracket(lib.dr, p.d)  X == Bracket(lib.rs, p.r)
  IN { <<a, b, x>> : a \in CornersOf(S), b \in CornersOf(R), x \in CornersOf(X) }

StDens(lib, q, p) ==
  LET S == Bracket(lib.ds, SourceDepth(lib, q))  R == Bracket(lib.dr, p.d)  X == Bracket(lib.rs, p.r)
      c == NodeCfg(lib, q, p, 1, 1)
      W == Weights(c.src, DirOf(p)).den
      h == IF q.zne THEN DirOf(p).h ELSE 1
      I == S.den * R.den * X.den
  IN [u |-> W * h * I, d |-> W * h * h * I * RScale(lib, X)]

StExpected(lib, q, p) ==
  IF Beyond(lib, p) THEN ZeroTerm
  ELSE LET X == Bracket(lib.rs, p.r)
           C == Corners(lib, q, p)
           f == [t \in C |-> CornerTerm(lib, q, p, X, t[1][1], t[2][1], t[3][1], t[1][2] * t[2][2] * t[3][2])]
       IN SumTerms(f, C)
=============================================================================
