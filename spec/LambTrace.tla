------------------------------ MODULE LambTrace ------------------------------
(* "row": one printed time in some azimuth against the same time in azimuth 0, and its      *)
(* phase.  "alone": a row does not depend on the other times asked for.  "wave": the         *)
(* response against the dynamic Green's functions of the half-space; "static" against the    *)
(* static ones; "pekeris" against Pekeris' closed form (nu = 1/4).                            *)
EXTENDS Lamb, TraceRun
Cl(x, y, t) == Abs(x - y) <= t
Tens(v) == << <<v[1], v[2], v[3]>>, <<v[4], v[5], v[6]>>, <<v[7], v[8], v[9]>> >>
RowOk(r) ==
  LET t == Tens(r.v)  z == Tens(r.zero)  f == Rot(z, r.a)  hh == r.a.h * r.a.h
      g == [rr |-> z[1][1], tt |-> z[2][2], zz |-> z[3][3], rz |-> z[1][3]]
  IN /\ \A ii, j \in 1..3 : Cl(hh * t[ii][j], f[ii][j], hh * r.tol)
     /\ \A ii, j \in 1..3 : Cl(hh * t[ii][j], Frame(g, r.a)[ii][j], hh * r.tol)
     /\ r.phase \in Phases
     /\ r.phase = "quiet" => \A k \in 1..9 : r.v[k] = 0
     /\ r.phase = "still" => LET s == StillG(r.m, r.n) IN Cl(g.rr, s.rr * r.one, r.tol) /\ Cl(g.tt, s.tt * r.one, r.tol) /\ Cl(g.zz, s.zz * r.one, r.tol)
     /\ r.late => Cl(g.rz, StillG(r.m, r.n).rz * r.one, r.latetol)
SeqOk(r) == Len(r.x) = Len(r.y) /\ \A k \in 1..Len(r.x) : Cl(r.x[k], r.y[k], r.tol)
StaticOk(r) == LET s == StillG(r.m, r.n) IN /\ Cl(r.x[1], s.rr * r.one, r.tol) /\ Cl(r.x[2], s.tt * r.one, r.tol) /\ Cl(r.x[3], s.zz * r.one, r.tol) /\ Cl(r.x[4], -s.rz * r.one, r.tol) /\ Cl(r.x[5], -s.rz * r.one, r.tol)
Ok(r) == r.ok /\ CASE r.kind = "row" -> RowOk(r) [] r.kind = "static" -> StaticOk(r) [] OTHER -> SeqOk(r)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
