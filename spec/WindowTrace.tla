------------------------------ MODULE WindowTrace -----------------------------
(* kind "win": runs of one motion (ticks: b, d, n requested; hb, hd, hn read from the    *)
(* headers; x samples), period P, growth factor F/1000 per period of the damping          *)
(* compensation; every instant shared by two runs must show the same motion.              *)
(* kind "fold": x of length n, y of length 2n, E/100000 = decay over n samples.            *)
(* kind "sum": parts add to x.                                                             *)
(* kind "hdr": start times and picks against the expected ones.                            *)
EXTENDS Window, TraceRun
HdrOk(r) == \A a \in 1..Len(r.runs) : LET u == r.runs[a] IN
   Abs(u.hb - 100 * u.b) <= 1 /\ Abs(u.hd - 100 * u.d) <= 1 /\ u.hn = u.n /\ Len(u.x) = u.n
Same(r, xa, xb, w) ==
   CASE w = 0 -> Abs(xa - xb) <= r.tol
     [] w = 1 -> Abs(xa * 1000 - xb * r.F) <= 1000 * r.tol + 700 * (r.F \div 1000 + 1)
     [] w = -1 -> Abs(xb * 1000 - xa * r.F) <= 1000 * r.tol + 700 * (r.F \div 1000 + 1)
     [] OTHER -> TRUE
PairOk(r, ra, rb) == \A j \in 1..ra.n :
   LET t == At(ra, j) IN Hits(rb, t, r.P) => Same(r, ra.x[j], rb.x[Index(rb, t, r.P)], Wraps(rb, t, r.P))
WinOk(r) == HdrOk(r) /\ \A a, b \in 1..Len(r.runs) : a # b => PairOk(r, r.runs[a], r.runs[b])
FoldOk(r) == /\ Len(r.y) = 2 * Len(r.x)
             /\ \A j \in 1..Len(r.x) : Abs((r.x[j] - r.y[j]) * 1000 - (r.y[j + Len(r.x)] * (r.E \div 100)) \div 1) <= 1000 * r.tol + 2 * Abs(r.y[j + Len(r.x)])
SumOk(r) == \A j \in 1..Len(r.x) : Abs(r.x[j] - SumTo([k \in 1..Len(r.parts) |-> r.parts[k][j]], Len(r.parts))) <= r.tol
HdrKind(r) == Len(r.got) = Len(r.want) /\ \A j \in 1..Len(r.got) : Abs(r.got[j] - r.want[j]) <= r.tol
Ok(r) == r.ok /\ CASE r.kind = "win" -> WinOk(r) [] r.kind = "fold" -> FoldOk(r) [] r.kind = "sum" -> SumOk(r) [] r.kind = "hdr" -> HdrKind(r) [] OTHER -> FALSE
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
