------------------------------- MODULE DispMC -------------------------------
(* The search as eigenv performs it: for every frequency of the request a worker       *)
(* sweeps reference layers; a sweep meets, in increasing order, the modes that layer    *)
(* sees (each mode is seen by some layer); a mode met is inserted in order unless it    *)
(* is already there, the list keeps the `Cap` slowest, and a sweep stops early once     *)
(* the list is full and the next candidate is not slower than its last entry.  While a  *)
(* worker refines a root it works in high precision (its own switch); a coarse step     *)
(* made in the wrong precision would lose or shift the root.                            *)
(* Checked: whatever the order of workers, the finished curve of every frequency is     *)
(* First(modes, Cap).  Defective variants: StopWhenFull (stop as soon as full),         *)
(* NoDedupe, SharedSwitch (one precision switch for all workers).                       *)
EXTENDS Disp
CONSTANTS P, Layers, NF, NT, Caps, StopWhenFull, NoDedupe, SharedSwitch
VARIABLES modes, sees, cap, todo, w, got, high
vars == <<modes, sees, cap, todo, w, got, high>>
Idle == [f |-> 0, l |-> 0, p |-> 0, st |-> "idle"]

Ins(s, x) == IF ~NoDedupe /\ x \in Range(s) THEN s
             ELSE LET n == Cardinality({k \in 1..Len(s) : s[k] < x}) IN
                  First(SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s)), cap)
Full(s) == cap >= 0 /\ Len(s) >= cap
Stop(s, x) == Full(s) /\ (StopWhenFull \/ (Len(s) > 0 /\ x >= s[Len(s)]))

Init ==
  /\ modes \in [1..NF -> {S \in SUBSET (1..P) : Cardinality(S) >= 1}]
  /\ sees \in [1..NF -> [1..Layers -> SUBSET (1..P)]]
  /\ \A f \in 1..NF : UNION {sees[f][l] : l \in 1..Layers} = modes[f]
  /\ cap \in Caps /\ todo = 1..NF /\ w = [t \in 1..NT |-> Idle] /\ got = [f \in 1..NF |-> << >>] /\ high = [t \in 1..NT |-> FALSE]
Take(t) ==
  /\ w[t].st = "idle" /\ \E f \in todo : todo' = todo \ {f} /\ w' = [w EXCEPT ![t] = [f |-> f, l |-> 1, p |-> 0, st |-> "sweep"]]
  /\ UNCHANGED <<modes, sees, cap, got, high>>
Cand(f, l, p) == {x \in sees[f][l] : x > p}
NextLayer(t) == [w EXCEPT ![t] = IF w[t].l = Layers THEN Idle ELSE [@ EXCEPT !.l = @ + 1, !.p = 0]]
Sweep(t) ==
  /\ w[t].st = "sweep"
  /\ LET f == w[t].f  C == Cand(f, w[t].l, w[t].p) IN
     IF C = {} THEN w' = NextLayer(t) /\ UNCHANGED <<high>>
     ELSE LET x == CHOOSE m \in C : \A y \in C : m <= y IN
          IF Stop(got[f], x) THEN w' = NextLayer(t) /\ UNCHANGED high
          \* a coarse step that finds the switch in high precision by another worker's doing does not see the trough
          ELSE IF high[IF SharedSwitch THEN 1 ELSE t] THEN w' = [w EXCEPT ![t].p = x] /\ UNCHANGED high
          ELSE w' = [w EXCEPT ![t].p = x, ![t].st = "refine"] /\ high' = [high EXCEPT ![IF SharedSwitch THEN 1 ELSE t] = TRUE]
  /\ UNCHANGED <<modes, sees, cap, todo, got>>
Refine(t) ==
  /\ w[t].st = "refine" /\ w' = [w EXCEPT ![t].st = "sweep"] /\ high' = [high EXCEPT ![IF SharedSwitch THEN 1 ELSE t] = FALSE]
  /\ got' = [got EXCEPT ![w[t].f] = Ins(@, w[t].p)]
  /\ UNCHANGED <<modes, sees, cap, todo>>
Next == \E t \in 1..NT : Take(t) \/ Sweep(t) \/ Refine(t)
Spec == Init /\ [][Next]_vars

Done == todo = {} /\ \A t \in 1..NT : w[t].st = "idle"
Complete == Done => \A f \in 1..NF : got[f] = First(SortSet(modes[f]), cap)
Ordered == \A f \in 1..NF : StrictlyUp(got[f])
=============================================================================
