---------------------------- MODULE ModelFileTrace ----------------------------
(* A record is one model file with a source and a receiver depth: the lines, and what  *)
(* each command did with them.  Lengths and velocities in thousandths, quality factors *)
(* in units, times in 10 microseconds, inverse quality factors in millionths.           *)
EXTENDS ModelFile, TraceRun
NoS == -123450                                  \* "not available"
MatOk(o, m, z) == \A j \in 1..3 : Near(o[j], MatAt(m, z)[j], 1, 1000000)
QOk(o, q) == IF q = 0 THEN o = 0 ELSE Near(o * q, 1000000, q, 1000000)
PTime(m, r) == VertTime(m, r.zs, r.zr, 2, 100000)
TimeOk(o, e, n, tol) == Abs(o - e) <= tol + n
StaticOk(r) ==
  LET m == Medium(r.file) IN
  /\ r.st.rc0 = (FileOk(r.file, FALSE) /\ DepthsOk(m, r.zs, r.zr))
  /\ r.st.rc0 = r.st.out
  /\ r.st.rc0 => /\ MatOk(r.st.src, m, r.zs) /\ MatOk(r.st.rcv, m, r.zr)
                 /\ Len(r.st.model) = Len(m)
                 /\ \A k \in 1..Len(m) : \A j \in 1..6 : (j > 1 \/ k < Len(m)) => Near(r.st.model[k][j], m[k][j], 1, 1000000)
DynOk(r) ==
  LET m == Medium(r.file)  acc == FileOk(r.file, TRUE) /\ DepthsOk(m, r.zs, r.zr) IN
  /\ r.dy.rc0 = acc /\ r.dy.out = acc /\ r.tv.rc0 = acc
  /\ acc => /\ MatOk(r.dy.src, m, r.zs) /\ MatOk(r.dy.rcv, m, r.zr)
            /\ QOk(r.dy.qinv[1], MatAt(m, r.zr)[4]) /\ QOk(r.dy.qinv[2], MatAt(m, r.zr)[5])
            /\ TimeOk(r.dy.tt[1], PTime(m, r), Len(m), 2) /\ TimeOk(r.tv.tt[1], PTime(m, r), Len(m), 100)
            /\ IF SBlocked(m, r.zs, r.zr) THEN r.dy.tt[2] < 0 /\ r.tv.tt[2] < 0
               ELSE LET s == VertTime(m, r.zs, r.zr, 3, 100000) IN TimeOk(r.dy.tt[2], s, Len(m), 2) /\ TimeOk(r.tv.tt[2], s, Len(m), 100)
Ok(r) == r.ok /\ (r.has \in {1, 3} => StaticOk(r)) /\ (r.has \in {2, 3} => DynOk(r))
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
