------------------------------- MODULE BatchReq --------------------------------
(* Histories of requests against one output table.  A result is identified by its own *)
(* source depth, receiver depth, distance and type; a request yields exactly the        *)
(* results its lists name, except that a source in a liquid yields only explosions,      *)
(* and that exception must not survive to the next pair of the same request.             *)
EXTENDS VP
CONSTANTS Srcs, Rcvs, Dists, Types, Liquid, Threads, Restore, MaxRuns
VARIABLES table, runs
NE(S) == SUBSET S \ {{}}
Requests == [src : NE(Srcs), rcv : NE(Rcvs), dist : NE(Dists), typ : NE(Types), der : BOOLEAN, thr : Threads]
(* depths are handled in ascending order; flag = types still enabled *)
RECURSIVE Walk(_, _, _)
Asc(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]
Walk(q, k, flag) ==
  IF k > Cardinality(q.src) THEN {}
  ELSE LET s == Asc(q.src)[k]
           now == IF s \in Liquid THEN flag \cap {"e"} ELSE flag
       IN [s : {s}, r : q.rcv, d : q.dist, t : now] \cup Walk(q, k + 1, IF Restore THEN q.typ ELSE now)
Made(q) == Walk(q, 1, q.typ)
Wanted(q) == { x \in [s : q.src, r : q.rcv, d : q.dist, t : q.typ] : x.s \in Liquid => x.t = "e" }
Init == table = {} /\ runs = 0
Next == runs < MaxRuns /\ \E q \in Requests : table' = table \cup Made(q) /\ runs' = runs + 1
Spec == Init /\ [][Next]_<<table, runs>>
Complete == \A q \in Requests : Made(q) = Wanted(q)
OnlyNamed == \A x \in table : x.s \in Liquid => x.t = "e"
EmitReqs == (runs = 0) => \A q \in Requests : Emit(q)
=============================================================================
