-------------------------------- MODULE Modes ---------------------------------
(* Dispersion files and the selection of modes and frequencies from them.            *)
(* A file is [f, m, n, v]: ascending frequencies, ascending mode numbers, how many    *)
(* modes each frequency has (the first n[i] columns are filled), and the values       *)
(* v[i][j] at frequency i and mode column j.                                          *)
(* Frequencies and periods are integers in units whose product at match is One.       *)
EXTENDS VP
CONSTANT One
Rows(F) == UNION { { <<F.f[i], F.m[j], F.v[i][j]>> : j \in 1..F.n[i] } : i \in 1..Len(F.f) }
(* what a selection denotes.  sn = [k, a, b, d]: "zero" (default: fundamental mode),  *)
(* "all", "list" a, a+d, ..., b.  sf = [k, p, a, b, d]: "all", "range" [a,b], "list"   *)
(* a, a+d, ..., b (a zero start is skipped); p: the numbers are periods                *)
InN(sn, m) == CASE sn.k = "zero" -> m = 0 [] sn.k = "all" -> TRUE
                [] OTHER -> m >= sn.a /\ m <= sn.b /\ (m - sn.a) % sn.d = 0
Start(sf) == IF sf.a = 0 THEN sf.d ELSE sf.a
InList(sf, x) == x >= Start(sf) /\ x <= sf.b /\ (x - Start(sf)) % sf.d = 0
InF(sf, x) == CASE sf.k = "all" -> TRUE
                [] sf.k = "range" /\ ~sf.p -> x >= sf.a /\ x <= sf.b
                [] sf.k = "range" /\ sf.p -> x * sf.a <= One /\ x * sf.b >= One
                [] sf.k = "list" /\ ~sf.p -> InList(sf, x)
                [] OTHER -> One % x = 0 /\ InList(sf, One \div x)
Keep(sn, sf, R) == { r \in R : InF(sf, r[1]) /\ InN(sn, r[2]) }
(* the operational filter: columns are moved, counted by position *)
SubSeqOf(s, idx) == [k \in 1..Len(idx) |-> s[idx[k]]]
RECURSIVE Pick(_, _, _)
Pick(s, P, k) == IF k > Len(s) THEN << >> ELSE (IF s[k] \in P THEN <<k>> ELSE << >>) \o Pick(s, P, k + 1)
Filter(F, sn, sf) ==
  LET fi == Pick(F.f, { x \in Range(F.f) : InF(sf, x) }, 1)
      mi == Pick(F.m, { x \in Range(F.m) : InN(sn, x) }, 1) IN
  [f |-> SubSeqOf(F.f, fi), m |-> SubSeqOf(F.m, mi),
   n |-> [k \in 1..Len(fi) |-> Cardinality({ j \in 1..Len(mi) : mi[j] <= F.n[fi[k]] })],
   v |-> [k \in 1..Len(fi) |-> SubSeqOf(F.v[fi[k]], mi)]]
(* the same with the mode number taken for a position: loses rows of files whose      *)
(* modes do not start at zero                                                         *)
FilterByNumber(F, sn, sf) ==
  LET G == Filter(F, sn, sf)
      fi == Pick(F.f, { x \in Range(F.f) : InF(sf, x) }, 1) IN
  [G EXCEPT !.n = [k \in 1..Len(fi) |-> Cardinality({ j \in 1..Len(G.m) : G.m[j] < F.n[fi[k]] })]]
Empty(F) == F.f = << >> \/ F.m = << >>
(* printing order *)
RECURSIVE Flat(_, _, _)
Flat(F, i, j) == IF i > Len(F.f) THEN << >>
                 ELSE IF j > F.n[i] THEN Flat(F, i + 1, 1)
                 ELSE << <<F.f[i], F.m[j], F.v[i][j]>> >> \o Flat(F, i, j + 1)
Listing(F) == Flat(F, 1, 1)
=============================================================================
