------------------------------- MODULE RcvFileMC ------------------------------
(* Line-by-line reader over every file of at most MaxLen lines of each kind.        *)
EXTENDS RcvFile
CONSTANTS MaxLen
VARIABLES file, pos, pts, ncol, st
vars == <<file, pos, pts, ncol, st>>
L(k, n, e, d, c) == [k |-> k, n |-> n, e |-> e, d |-> d, cols |-> c]
Kinds == { L("data", 3, 4, 0, 3), L("data", 0, -2, 1, 3), L("data", -4, 3, 1, 6), L("data", 0, 0, 0, 6), L("note", 0, 0, 0, 0),
           L("data", 1, 1, 1, 2), L("data", 1, 1, 1, 4), L("data", 1, 1, 1, 7), L("data", 1, 1, -1, 3), L("junk", 1, 1, 1, 3) }
Init == /\ file \in UNION { [1..n -> Kinds] : n \in 1..MaxLen } /\ pos = 1 /\ pts = << >> /\ ncol = 0 /\ st = "reading"
Read == /\ st = "reading" /\ pos <= Len(file)
        /\ LET l == file[pos] IN
           IF l.k = "note" THEN UNCHANGED <<pts, ncol, st>>
           ELSE IF l.k = "junk" \/ l.cols \notin {3, 6} \/ (ncol # 0 /\ l.cols # ncol) \/ l.d < 0
                THEN st' = "refused" /\ UNCHANGED <<pts, ncol>>
                ELSE pts' = Append(pts, <<l.n, l.e, l.d>>) /\ ncol' = l.cols /\ UNCHANGED st
        /\ pos' = pos + 1 /\ UNCHANGED file
End == /\ st = "reading" /\ pos > Len(file) /\ st' = IF pts = << >> THEN "refused" ELSE "accepted"
       /\ UNCHANGED <<file, pos, pts, ncol>>
Next == Read \/ End
Spec == Init /\ [][Next]_vars
Final == st # "reading"
Agrees == Final => (st = "accepted") = Accepted(file)
InOrder == st = "accepted" => pts = Points(file)
NotNote(l) == l.k # "note"
NotesIrrelevant == Final =>
  LET g == SelectSeq(file, NotNote) IN
  (st = "accepted") = (g # << >> /\ Accepted(g)) /\ (st = "accepted" => Points(g) = pts)
Inv == Agrees /\ InOrder /\ NotesIrrelevant
EmitDone == Final => Emit([file |-> file, ok |-> st = "accepted", pts |-> pts])
=============================================================================
