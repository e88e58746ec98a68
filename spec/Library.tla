-------------------------------- MODULE Library -------------------------------
(* Building a static library (property C08): a request names source depths, receiver  *)
(* depths and grid points; the program visits the pairs one after another, choosing    *)
(* an integration method for each; repeated distances are computed once.               *)
EXTENDS VP, SequencesExt
CONSTANTS Depths, North, East, MaxDep
VARIABLES ds, dr, nn, ee, todo, lib, meth, uniq
vars == <<ds, dr, nn, ee, todo, lib, meth, uniq>>

NonEmptyUpTo(S, n) == { T \in SUBSET S : T # {} /\ Cardinality(T) <= n }
(* method of a pair: depths that coincide need a convergence method                     *)
Method(s, r) == IF s = r THEN "converge" ELSE "auto"
Entry(s, r, d2) == [s |-> s, r |-> r, d2 |-> d2, m |-> Method(s, r)]
D2(n, e) == n * n + e * e

Init == /\ ds \in NonEmptyUpTo(Depths, MaxDep) /\ dr \in NonEmptyUpTo(Depths, MaxDep)
        /\ nn \in NonEmptyUpTo(North, 2) /\ ee \in NonEmptyUpTo(East, 2)
        /\ (\E e \in ee : e = 20)                       \* the largest distance fixes the wavenumber step
        /\ todo = ds \X dr /\ lib = {} /\ meth = "auto" /\ uniq = {}
Pair(p) == p \in todo
(* the working copy of the method starts from the request's for every pair               *)
Visit == \E p \in todo :
  /\ \A q \in todo : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
  /\ meth' = Method(p[1], p[2])
  /\ uniq' = { D2(n, e) : n \in nn, e \in ee }
  /\ lib' = lib \cup { <<p[1], p[2], n, e, [s |-> p[1], r |-> p[2], d2 |-> D2(n, e), m |-> meth']>> : n \in nn, e \in ee }
  /\ todo' = todo \ {p} /\ UNCHANGED <<ds, dr, nn, ee>>
Next == Visit
Spec == Init /\ [][Next]_vars
Done == todo = {}
Complete == Done => Cardinality(lib) = Cardinality(ds) * Cardinality(dr) * Cardinality(nn) * Cardinality(ee)
OwnOnly == \A x \in lib : x[5] = Entry(x[1], x[2], D2(x[3], x[4]))
Symmetric == \A x \in lib, y \in lib : (x[1] = y[1] /\ x[2] = y[2] /\ D2(x[3], x[4]) = D2(y[3], y[4])) => x[5] = y[5]
Inv == Complete /\ OwnOnly /\ Symmetric
EmitDone == Done => Emit([ds |-> SetToSortSeq(ds, <), dr |-> SetToSortSeq(dr, <), nn |-> SetToSortSeq(nn, <), ee |-> SetToSortSeq(ee, <)])
=============================================================================
