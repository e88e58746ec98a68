------------------------------- MODULE ModesMC --------------------------------
(* Histories of selections applied one after the other (eigenv file -> eigenfn -U ->  *)
(* disp2asc -U): the rows left are exactly those every selection names, in order, and  *)
(* the order of two selections does not matter.                                       *)
EXTENDS Modes
CONSTANTS NF, NM, Depth, Defect
VARIABLES F, base, hist
vars == <<F, base, hist>>
File(n) == [f |-> [i \in 1..NF |-> i], m |-> [j \in 1..NM |-> j - 1], n |-> n,
            v |-> [i \in 1..NF |-> [j \in 1..NM |-> 10 * i + j]]]
SN == { [k |-> "all", a |-> 0, b |-> 0, d |-> 1], [k |-> "zero", a |-> 0, b |-> 0, d |-> 1] }
      \cup { [k |-> "list", a |-> a, b |-> b, d |-> d] : a \in 0..(NM-1), b \in 0..NM, d \in 1..2 }
SF == { [k |-> "all", p |-> FALSE, a |-> 0, b |-> 0, d |-> 1] }
      \cup { [k |-> "range", p |-> p, a |-> a, b |-> b, d |-> 1] : p \in BOOLEAN, a \in 0..1, b \in 1..2 }
      \cup { [k |-> "list", p |-> p, a |-> a, b |-> 2, d |-> d] : p \in BOOLEAN, a \in 0..1, d \in 1..2 }
Fil(G, n, f) == IF Defect THEN FilterByNumber(G, n, f) ELSE Filter(G, n, f)
Init == /\ base \in { File(n) : n \in [1..NF -> 0..NM] } /\ F = base /\ hist = << >>
Next == \E n \in SN, f \in SF : /\ Len(hist) < Depth /\ ~Empty(Fil(F, n, f))
          /\ (n.k = "list" => n.a <= n.b)
          /\ F' = Fil(F, n, f) /\ hist' = Append(hist, <<n, f>>) /\ UNCHANGED base
Spec == Init /\ [][Next]_vars
RECURSIVE KeepAll(_, _)
KeepAll(R, h) == IF h = << >> THEN R ELSE KeepAll(Keep(h[1][1], h[1][2], R), Tail(h))
PureFilter == Rows(F) = KeepAll(Rows(base), hist)
Ordered == LET p == Listing(F) IN \A k \in 1..(Len(p) - 1) :
              p[k][1] < p[k+1][1] \/ (p[k][1] = p[k+1][1] /\ p[k][2] < p[k+1][2])
Complete == Range(Listing(F)) = Rows(F)
Commute == Len(hist) = 2 => Rows(Fil(Fil(base, hist[2][1], hist[2][2]), hist[1][1], hist[1][2])) = Rows(F)
Inv == PureFilter /\ Ordered /\ Complete /\ Commute
=============================================================================
