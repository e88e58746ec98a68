------------------------------ MODULE TensorHist ------------------------------
(* One synthetics directory under a sequence of commands (property C07).            *)
(* syn writes displacements, and derivatives only with -e; strain, rotation and      *)
(* stress must reflect the latest syn, and need its derivatives.                      *)
EXTENDS VP
CONSTANTS MaxLen
VARIABLES hist, last, outs, res
vars == <<hist, last, outs, res>>

Syns == [op : {"syn"}, zne : BOOLEAN, e : BOOLEAN]
Cmds == [op : {"strain", "stress", "rotation"}]
NoSyn == [ver |-> 0, zne |-> FALSE, e |-> FALSE]
Init == hist = << >> /\ last = NoSyn /\ outs = [k \in {"strain", "stress", "rotation"} |-> 0] /\ res = << >>
NVer(h) == Cardinality({k \in 1..Len(h) : h[k].op = "syn"})
Syn(a) == /\ last' = [ver |-> NVer(hist) + 1, zne |-> a.zne, e |-> a.e]
          /\ hist' = Append(hist, a) /\ res' = Append(res, "ok") /\ UNCHANGED outs
Cmd(a) == /\ hist' = Append(hist, a)
          /\ IF last.e THEN outs' = [outs EXCEPT ![a.op] = last.ver] /\ res' = Append(res, "ok")
             ELSE UNCHANGED outs /\ res' = Append(res, "refused")
          /\ UNCHANGED last
Next == Len(hist) < MaxLen /\ ((\E a \in Syns : Syn(a)) \/ (\E b \in Cmds : Cmd(b)))
Spec == Init /\ [][Next]_vars

(* every tensor present is from a synthesis that had derivatives, and from the latest   *)
(* one if the command ran after it                                                      *)
Fresh == \A k \in 1..Len(hist) :
  (hist[k].op # "syn" /\ res[k] = "ok" /\ (\A j \in (k+1)..Len(hist) : hist[j].op # "syn"))
     => outs[hist[k].op] = last.ver
NeverFromNothing == \A o \in DOMAIN outs : outs[o] > 0 => \E k \in 1..Len(hist) : hist[k].op = "syn" /\ hist[k].e
Inv == Fresh /\ NeverFromNothing
(* histories in which derivative files of an earlier synthesis lie around unmatched      *)
StaleAround(h) ==
  LET S == {k \in 1..Len(h) : h[k].op = "syn"} IN
  \E k \in S : h[k].e /\ \E j \in S : j > k /\ (~h[j].e \/ (h[k].zne /\ ~h[j].zne))
EmitAll == (Len(hist) = MaxLen /\ hist[MaxLen].op # "syn") =>
  Emit([hist |-> hist, res |-> res, stale |-> StaleAround(hist)])
=============================================================================
