------------------------------ MODULE StaticSynMC -----------------------------
(* The interpolation as a state machine: locate the three brackets, then visit the *)
(* corners in any order, accumulating.  Every finished run is emitted.              *)
EXTENDS StaticSyn
CONSTANTS Deep
VARIABLES phase, q, p, left, acc
vars == <<phase, q, p, left, acc>>

Fam(n) == [k \in 1..6 |-> << ((n + 3*k) % 5) - 2, ((2*n + 5*k) % 7) - 3, ((n + 2*k) % 5) - 1 >>]
RS == <<0, 3, 5, 10>>
DS == <<1, 3>>
DR == <<0, 2>>
Lib == [ ds |-> DS, dr |-> DR, rs |-> RS, vr |-> << <<4,1>>, <<3,1>> >>, mu |-> <<1, 2>>,
         g  |-> [a \in 1..2 |-> [b \in 1..2 |-> [x \in 1..4 |-> Fam(a + 2*b + 5*x)]]],
         gz |-> [a \in 1..2 |-> [b \in 1..2 |-> [x \in 1..4 |-> Fam(1 + 3*a + b + 2*x)]]],
         gr |-> [a \in 1..2 |-> [b \in 1..2 |-> [x \in 1..4 |-> Fam(2 + a + 4*b + 3*x)]]] ]
Pt(n, e, r, d) == [n |-> n, e |-> e, r |-> r, d |-> d]
Places == { <<0,0,0>>, <<2,0,2>>, <<0,-4,4>>, <<-3,4,5>>, <<6,-8,10>>, <<-7,0,7>> }
          \cup (IF Deep THEN { <<0,3,3>>, <<-4,-3,5>>, <<8,6,10>>, <<1,0,1>>, <<0,12,12>> } ELSE { <<0,12,12>> })
A(c,s,h) == Ang(c,s,h)
Srcs == { [type |-> "EX"], [type |-> "SF", f |-> <<1,-2,1>>], [type |-> "MT", m |-> <<2,-1,1,0,1,-1>>],
          [type |-> "DC", strike |-> A(4,3,5), dip |-> A(0,1,1), rake |-> A(0,1,1)],
          [type |-> "TS", strike |-> A(0,1,1), dip |-> A(3,4,5), vr |-> <<4,1>>] }
Init == /\ phase = "locate" /\ left = {} /\ acc = ZeroTerm
        /\ \E s \in Srcs, d \in {1, 2, 3, 4}, su \in BOOLEAN, z \in BOOLEAN, ua \in (IF Deep THEN BOOLEAN ELSE {TRUE}) :
             q = [src |-> s, k |-> 1, su |-> su, ds |-> d, hasds |-> TRUE, dr |-> 0, hasdr |-> FALSE, layout |-> "points", zne |-> z, upar |-> ua]
        /\ \E x \in Places, d \in {0, 1, 2, 3} : p = Pt(x[1], x[2], x[3], d)
Locate == /\ phase = "locate"
          /\ IF Refused(Lib, q, <<p>>) THEN phase' = "refused" /\ left' = {}
             ELSE IF Beyond(Lib, p) THEN phase' = "done" /\ left' = {}
             ELSE phase' = "sum" /\ left' = Corners(Lib, q, p)
          /\ UNCHANGED <<q, p, acc>>
Visit == /\ phase = "sum" /\ left # {}
         /\ \E t \in (IF Deep THEN left ELSE {CHOOSE y \in left : TRUE}) :
              /\ acc' = AddTerm(acc, CornerTerm(Lib, q, p, Bracket(Lib.rs, p.r), t[1][1], t[2][1], t[3][1], t[1][2] * t[2][2] * t[3][2]))
              /\ left' = left \ {t}
         /\ UNCHANGED <<phase, q, p>>
Stop == /\ phase = "sum" /\ left = {} /\ phase' = "done" /\ UNCHANGED <<q, p, left, acc>>
Next == Locate \/ Visit \/ Stop
Spec == Init /\ [][Next]_vars

Closed == phase = "done" => acc = StExpected(Lib, q, p)
(* weights are a partition of unity                                                    *)
Unity == phase = "sum" =>
  LET ws(B) == SumSeq([k \in 1..2 |-> IF k = 1 THEN (IF B.i0 = B.i1 THEN 1 ELSE B.den - B.num) ELSE B.num])
  IN ws(Bracket(Lib.rs, p.r)) = Bracket(Lib.rs, p.r).den
(* on a library node the result is the plain synthesis of that node                     *)
NodeExact == (phase = "done" /\ ~Beyond(Lib, p) /\ q.ds \in {1, 3} /\ p.d \in {0, 2} /\ p.r \in Range(RS)) =>
  LET is == Bracket(DS, q.ds).i0  ir == Bracket(DR, p.d).i0  ix == Bracket(RS, p.r).i0
  IN acc.u = SynU(NodeCfg(Lib, q, p, is, ix), Lib.g[is][ir][ix])
(* the middle of a depth cell is the mean of its ends                                   *)
Midpoint == (phase = "done" /\ q.ds = 2 /\ ~Beyond(Lib, p)) =>
  acc.u = Add3(StExpected(Lib, [q EXCEPT !.ds = 1], p).u, StExpected(Lib, [q EXCEPT !.ds = 3], p).u)
(* vertical displacement does not depend on the output frame                            *)
Vertical == (phase = "done" /\ q.zne) => acc.u[1] = DirOf(p).h * StExpected(Lib, [q EXCEPT !.zne = FALSE], p).u[1]
Inv == Closed /\ Unity /\ NodeExact /\ Midpoint /\ Vertical
EmitDone == phase \in {"done", "refused"} =>
  Emit([q |-> q, p |-> p, refused |-> phase = "refused", beyond |-> phase = "done" /\ Beyond(Lib, p),
        u |-> acc.u, d |-> acc.d, dens |-> IF phase = "refused" \/ Beyond(Lib, p) THEN [u |-> 1, d |-> 1] ELSE StDens(Lib, q, p)])
EmitLib == phase = "locate" => TRUE
ASSUME Emit([lib |-> Lib])
=============================================================================
