------------------------------ MODULE Schemes -------------------------------
(* The ways of computing one wavenumber integral, and how far from the          *)
(* reference (DWM, automatic upper limit and convergence) each adequate one may *)
(* be, in 1e-6 of the largest component of the same source and quantity.        *)
EXTENDS VP
Doms == {"dyn", "sta"}
Geoms == {"near", "level", "far"}
Convs == {"auto", "n", "d", "p"}        \* automatic, none, direct, peak-trough
Ks == {"auto", "f", "k80", "s4", "v", "e", "kf"}
Lens == {1, 2}                          \* the length of the reference, twice the length
Quads == {"D", "F", "A"}
Offs == {"none", "some", "all"}         \* kcut: absent, before, beyond the upper limit
Schemes == [dom : Doms, geom : Geoms, conv : Convs, k : Ks, len : Lens, quad : Quads, off : Offs]

Ref(s) == [s EXCEPT !.conv = "auto", !.k = "auto", !.len = 1, !.quad = "D", !.off = "none"]

WellFormed(s) ==
  /\ (s.quad = "D" => s.off = "none")
  /\ (s.dom = "sta" => s.k \notin {"s4", "v", "kf"})        \* options of frequency-dependent limits
  /\ (s.k = "e" => s.conv = "auto")                        \* an explicit method has no tolerance
Adequate(s) ==
  /\ WellFormed(s)
  \* a kernel that does not decay needs its constant integrated analytically
  /\ (s.geom = "level" => s.conv \in {"auto", "d"} /\ s.k # "e")
  \* asymptotic Bessel functions need distance; statics are all near field
  /\ (s.quad # "D" /\ s.off # "all" => s.dom = "dyn" /\ s.geom # "near")
  /\ (s.dom = "sta" => s.geom # "far")
  /\ (s.geom = "level" /\ s.quad # "D" => s.off = "all")
  /\ (s.geom = "far" => s.k \in {"auto"} /\ s.conv \in {"auto", "n", "d"} /\ s.off # "all")
  /\ (s.quad # "D" => s.k \in {"auto", "f"})

(* contributions to the difference; hard: depth derivatives of moment sources,      *)
(* whose kernels grow fastest                                                      *)
EConv(s) == IF s.conv = "auto" \/ s.geom = "level" THEN 0 ELSE IF s.conv = "p" THEN 3000 ELSE IF s.geom = "far" THEN 8000 ELSE 1500
EK(s, hard) == CASE s.k = "auto" -> 0
         [] s.k = "e" -> 12000
         [] s.geom = "level" /\ s.k = "s4" -> IF hard THEN 6000 ELSE 2000
         [] s.geom = "level" -> IF s.dom = "sta" THEN (IF hard THEN 50000 ELSE 6000) ELSE IF hard THEN 500000 ELSE 200000
         [] OTHER -> 4000
ELen(s, hard) == IF s.len = 1 THEN 0 ELSE IF s.dom = "sta" THEN (IF hard THEN 50000 ELSE 20000) ELSE IF s.geom = "level" THEN (IF hard THEN 400000 ELSE 200000) ELSE 8000
EQuad(s) == IF s.quad = "D" \/ s.off = "all" THEN 0 ELSE IF s.off = "none" THEN 120000 ELSE 120000
Tol(s, hard) == 20 + EConv(s) + EK(s, hard) + ELen(s, hard) + EQuad(s)

(* one step changes one choice                                                    *)
VARIABLE cur
Init == cur \in {Ref(x) : x \in Schemes}
Step == \E x \in Schemes :
   /\ Adequate(x) /\ x.dom = cur.dom /\ x.geom = cur.geom
   /\ Cardinality({f \in {"conv", "k", "len"} : x[f] # cur[f]} \cup (IF <<x.quad, x.off>> # <<cur.quad, cur.off>> THEN {"quad"} ELSE {})) = 1
   /\ cur' = x
Next == Step
Spec == Init /\ [][Next]_cur

TypeOK == Adequate(cur) \/ cur = Ref(cur)
(* every tolerance is small, and two equal plans have none                       *)
Bounded == Adequate(cur) => Tol(cur, FALSE) <= Tol(cur, TRUE) /\ Tol(cur, TRUE) <= 1000000 /\ (cur = Ref(cur) => Tol(cur, TRUE) = 20)
EmitS == Adequate(cur) => Emit([s |-> cur, tol |-> <<Tol(cur, FALSE), Tol(cur, TRUE)>>])
=============================================================================
