------------------------------- MODULE RayTrace -------------------------------
(* A record is one model (slownesses in 1/unit per km, thicknesses in 10 m), two depths *)
(* and the times reported for a list of distances: from the headers of Green's functions *)
(* (hdr), and from the travel-time table (tab, milliseconds), alone (one) and exchanged. *)
(* Times are in length*slowness units; ms holds how many of them make a millisecond.      *)
EXTENDS Ray, TraceRun
Stack(r, w) == [ k \in 1..Len(r.h) |-> <<r.h[k], IF w = 1 THEN r.up[k] ELSE r.us[k]>> ]
SumH(r, b) == SumTo([ k \in 1..Len(r.h) |-> r.h[k] ], Len(r.h)) + b
(* fixed-point error of the specification: a fraction of a slowness unit over the path, and the end of the p range *)
Slack(r, b) == SumH(r, b) * 3 + 100
TimeOk(r, w, j) ==
  LET m == Stack(r, w)  a == Min2(r.zs, r.zr)  b == Max2(r.zs, r.zr)
  IN IF ~Avail(m, a, b) THEN r.hdr[w][j] < 0 /\ r.tab[w][j] < 0 /\ r.swp[w][j] < 0 /\ r.one[w][j] < 0
     ELSE LET t == First(m, a, b, r.x[j]) IN
       /\ r.tab[w][j] >= 0 /\ Abs(r.tab[w][j] * r.ms - t) <= Slack(r, b) + r.ms
       /\ r.hdr[w][j] >= 0 /\ Abs(r.hdr[w][j] - t) <= Slack(r, b) + 20
       /\ Abs(r.swp[w][j] - r.tab[w][j]) <= 1
       /\ r.one[w][j] = r.tab[w][j]
       /\ Abs(r.hdr[w][j] - r.tab[w][j] * r.ms) <= r.ms
       /\ j > 1 => r.hdr[w][j] >= r.hdr[w][j - 1]
Ok(r) == r.ok /\ \A w \in 1..2 : \A j \in 1..Len(r.x) : TimeOk(r, w, j)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
