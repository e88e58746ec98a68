-------------------------------- MODULE CliMC --------------------------------
(* The option reader as a process: options come in any order, a bad one ends it,     *)
(* rules are checked when all are read, output starts afterwards.  Explored from       *)
(* every base invocation with up to MaxDev slots changed.                              *)
EXTENDS Cli
CONSTANTS MaxDev, Early, Eager, Names
VARIABLES cmd, base, v, dev, rd, st, out
vars == <<cmd, base, v, dev, rd, st, out>>
Used == { k \in 1..Len(v) : v[k] # 0 }
Init == /\ cmd \in Names /\ \E K \in Bases(cmd) : base = Pick(cmd, K)
        /\ v = base /\ dev = 0 /\ rd = {} /\ st = "choosing" /\ out = "old"
Choose == /\ st = "choosing" /\ dev < MaxDev
          /\ \E k \in 1..Len(v) : v[k] = base[k] /\ (\A j \in 1..Len(v) : v[j] # base[j] => j < k)
                 /\ \E n \in (-Len(Slots(cmd)[k].bad))..Len(Slots(cmd)[k].good) : n # v[k] /\ v' = [v EXCEPT ![k] = n]
          /\ dev' = dev + 1 /\ UNCHANGED <<cmd, base, rd, st, out>>
Start == st = "choosing" /\ st' = "reading" /\ UNCHANGED <<cmd, base, v, dev, rd, out>>
Read == /\ st = "reading" /\ \E k \in Used \ rd :
             /\ rd' = rd \cup {k}
             /\ st' = IF v[k] < 0 THEN "refused"
                      ELSE IF Eager /\ ~Rule(cmd, { Slots(cmd)[j].key : j \in rd \cup {k} }) /\ Cardinality(rd) = Cardinality(Used) - 1 /\ k # Len(v) THEN "refused" ELSE "reading"
             /\ out' = IF Early /\ Slots(cmd)[k].key = "O" /\ v[k] > 0 THEN "new" ELSE out
        /\ UNCHANGED <<cmd, base, v, dev>>
Check == st = "reading" /\ rd = Used /\ st' = (IF Rule(cmd, Present(cmd, v)) \/ Eager THEN "running" ELSE "refused") /\ UNCHANGED <<cmd, base, v, dev, rd, out>>
Write == st = "running" /\ out' = "new" /\ st' = "done" /\ UNCHANGED <<cmd, base, v, dev, rd>>
Next == Choose \/ Start \/ Read \/ Check \/ Write
Spec == Init /\ [][Next]_vars
BaseValid == Valid(cmd, base)
Settled == /\ (out = "new") => Valid(cmd, v)
           /\ st = "done" => Valid(cmd, v) /\ out = "new"
           /\ st = "refused" => ~Valid(cmd, v) /\ out = "old"
Row == st = "choosing" => Emit([cmd |-> cmd, v |-> v, dev |-> dev])
=============================================================================
