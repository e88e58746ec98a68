--------------------------------- MODULE Disp ---------------------------------
(* A dispersion curve at one frequency: the strictly increasing phase velocities of   *)
(* the guided modes of a layered half-space.  Oracle: Below(c), the exact number of   *)
(* modes slower than c (Wittrick-Williams count of the layers' dynamic stiffness).    *)
EXTENDS VP

StrictlyUp(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
First(s, n) == IF n < 0 \/ n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
SortSet(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A x, y \in 1..Cardinality(S) : x < y => s[x] < s[y]

(* r.c[k]: mode k-1 reported; lo/hi: modes below slightly less / slightly more than  *)
(* r.c[k]; sh: modes below it that lie within the search's blind zone of a layer      *)
(* velocity (documented option -T+v) and may be absent; all: <<fewest, most>> modes   *)
(* of the whole band, shall: those of them in a blind zone; cap: modes asked for.     *)
IsCurve(r) ==
  /\ StrictlyUp(r.c)
  /\ \A k \in 1..Len(r.c) : r.c[k] > 0 /\ r.c[k] < r.vmax
  /\ \A k \in 1..Len(r.c) : r.lo[k] - r.sh[k] <= k - 1 /\ k - 1 < r.hi[k]
  /\ Len(r.c) <= r.all[2] /\ (r.cap < 0 \/ Len(r.c) <= r.cap)
  /\ Len(r.c) >= (IF r.cap < 0 THEN r.all[1] - r.shall ELSE Min2(r.cap, r.all[1] - r.shall))
(* two computations of the same curve: the shorter request is the head of the longer *)
SameHead(a, b, cap, tol) == NearSeq(b, First(a, cap), tol, 1000000000)
=============================================================================
