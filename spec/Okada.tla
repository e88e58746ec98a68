-------------------------------- MODULE Okada ---------------------------------
(* Dislocations in a uniform half-space (C17).  A field is determined by the        *)
(* content of its source description: which unit cells carry which symmetrised dyad  *)
(* slip (x) normal.  Descriptions with the same content have the same field; moving   *)
(* the content and the receivers together moves the field.                            *)
(* Vectors are <<north, east, down>> in units 1/DEN of a cell; a fault is              *)
(*   [p: start of the top edge, L, W: cells, st, dip: angles,                          *)
(*    slip: <<right-lateral, reverse, opening>>]                                        *)
(* dipping to the right of its strike.                                                  *)
EXTENDS VP
DEN == 125
V3(a, b, c) == <<a, b, c>>
Plus(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
Times(k, a) == << k * a[1], k * a[2], k * a[3] >>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
(* unit vectors times DEN                                                             *)
Along(f) == Times(DEN \div f.st.h, << f.st.c, f.st.s, 0 >>)
Down(f) == LET q == DEN \div (f.st.h * f.dip.h) IN Times(q, << -f.dip.c * f.st.s, f.dip.c * f.st.c, f.dip.s * f.st.h >>)
Norm(f) == LET q == DEN \div (f.st.h * f.dip.h) IN Times(q, << -f.dip.s * f.st.s, f.dip.s * f.st.c, -f.dip.c * f.st.h >>)  \* to the hanging wall
(* motion of the hanging wall relative to the foot wall, times DEN                     *)
Slip(f) == Plus(Plus(Times(-f.slip[1], Along(f)), Times(-f.slip[2], Down(f))), Times(f.slip[3], Norm(f)))
Corner(f, l, w) == Plus(f.p, Plus(Times(l, Along(f)), Times(w, Down(f))))
Dyad(b, n) == << 2 * b[1] * n[1], b[1] * n[2] + b[2] * n[1], b[1] * n[3] + b[3] * n[1], 2 * b[2] * n[2], b[2] * n[3] + b[3] * n[2], 2 * b[3] * n[3] >>
CellKey(f, l, w) == { Corner(f, l, w), Corner(f, l + 1, w), Corner(f, l, w + 1), Corner(f, l + 1, w + 1) }
Keys(F) == UNION { { CellKey(F[k], l, w) : l \in 0..(F[k].L - 1), w \in 0..(F[k].W - 1) } : k \in 1..Len(F) }
DyadAt(f, key) == IF \E l \in 0..(f.L - 1), w \in 0..(f.W - 1) : CellKey(f, l, w) = key THEN Dyad(Slip(f), Norm(f)) ELSE <<0,0,0,0,0,0>>
Add6(a, b) == [k \in 1..6 |-> a[k] + b[k]]
RECURSIVE SumAt(_, _, _)
SumAt(F, key, n) == IF n = 0 THEN <<0,0,0,0,0,0>> ELSE Add6(SumAt(F, key, n - 1), DyadAt(F[n], key))
Content(F) == { x \in { << key, SumAt(F, key, Len(F)) >> : key \in Keys(F) } : x[2] # <<0,0,0,0,0,0>> }

(* a motion: x -> (A x)/h + t on the horizontal plane (A orthogonal times h), slip times k *)
Still == [a |-> <<1, 0, 0, 1>>, h |-> 1, t |-> <<0, 0>>, k |-> 1]
MoveV(m, v) == << (m.a[1] * v[1] + m.a[2] * v[2]) \div m.h, (m.a[3] * v[1] + m.a[4] * v[2]) \div m.h, v[3] >>      \* vectors, exact on the grids used
MoveP(m, v) == Plus(MoveV(m, v), << m.t[1], m.t[2], 0 >>)
MoveT(m, T) == LET M(i, j) == T[LET a == Min2(i, j)  b == Max2(i, j) IN CASE a = 1 -> b [] a = 2 -> 2 + b [] a = 3 -> 6]
                   R(i, j) == IF i = 3 \/ j = 3 THEN (IF i = j THEN m.h ELSE 0) ELSE m.a[2 * (i - 1) + j]
                   MR(p, j) == M(p, 1) * R(j, 1) + M(p, 2) * R(j, 2) + M(p, 3) * R(j, 3)
                   E(i, j) == (m.k * (R(i, 1) * MR(1, j) + R(i, 2) * MR(2, j) + R(i, 3) * MR(3, j))) \div (m.h * m.h)
               IN << E(1,1), E(1,2), E(1,3), E(2,2), E(2,3), E(3,3) >>
MoveContent(m, C) == { << { MoveP(m, p) : p \in x[1] }, MoveT(m, x[2]) >> : x \in C }
Same(F0, m, F) == Content(F) = MoveContent(m, Content(F0))

(* ---- rewriting a description ------------------------------------------------------ *)
Put(F, k, s) == SubSeq(F, 1, k - 1) \o s \o SubSeq(F, k + 1, Len(F))
CutL(f, l) == << [f EXCEPT !.L = l], [f EXCEPT !.p = Corner(f, l, 0), !.L = f.L - l] >>
CutW(f, w) == << [f EXCEPT !.W = w], [f EXCEPT !.p = Corner(f, 0, w), !.W = f.W - w] >>
Parts(f) == << [f EXCEPT !.slip = << f.slip[1], 0, 0 >>], [f EXCEPT !.slip = << 0, f.slip[2], f.slip[3] >>] >>
Halves(f) == << [f EXCEPT !.slip = << f.slip[1], 1, 1 >>], [f EXCEPT !.slip = << 0, f.slip[2] - 1, f.slip[3] - 1 >>] >>
(* a vertical fault read from its other end *)
Turn(f) == [f EXCEPT !.p = Corner(f, f.L, 0), !.st = Ang(-f.st.c, -f.st.s, f.st.h), !.slip = << f.slip[1], -f.slip[2], f.slip[3] >>]
RotF(f, g) == [f EXCEPT !.p = << (g.c * f.p[1] - g.s * f.p[2]) \div g.h, (g.s * f.p[1] + g.c * f.p[2]) \div g.h, f.p[3] >>,
                           !.st = LET a == AddA(f.st, g) IN IF a.h = 25 /\ a.c % 5 = 0 /\ a.s % 5 = 0 THEN Ang(a.c \div 5, a.s \div 5, 5) ELSE a]
(* reflection north <-> south: the fault is read from its other end to dip to its right    *)
Mir(f) == LET e == Corner(f, f.L, 0) IN [f EXCEPT !.p = << -e[1], e[2], e[3] >>, !.st = Ang(f.st.c, -f.st.s, f.st.h), !.slip = << -f.slip[1], f.slip[2], f.slip[3] >>]
ShiftF(f, n, e) == [f EXCEPT !.p = Plus(f.p, << n, e, 0 >>)]
(* admissible Coulomb rows: at most two kinds of slip                                       *)
Row(f) == CASE f.slip[3] = 0 -> 100 [] f.slip[2] = 0 -> 200 [] f.slip[1] = 0 -> 300 [] OTHER -> 0
=============================================================================
