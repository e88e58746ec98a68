--------------------------------- MODULE Batch ---------------------------------
(* Green's functions of a request.  A request names source depths, receiver depths, *)
(* distances, source types, whether derivatives are wanted and a number of threads;  *)
(* for each depth pair a team of workers shares the frequencies.  Each worker starts  *)
(* a frequency from the common integration record, tunes its own copy (wavenumber      *)
(* limit and step) and stores the integral in the slot of that frequency.              *)
EXTENDS VP
CONSTANTS NF,          \* frequencies
          NT,          \* workers
          Private      \* TRUE: each frequency tunes its own copy; FALSE: the shared one (a defect)
VARIABLES todo, pc, fr, loc, shared, slot
bvars == <<todo, pc, fr, loc, shared, slot>>
Step0 == 4                                            \* the common wavenumber step
Limit(f) == IF f <= NF \div 2 THEN 2 ELSE 8           \* low frequencies need a finer step
Tuned(d, f) == IF Limit(f) < d THEN Limit(f) ELSE d
Value(f, d) == 100 * f + d                            \* what integrating frequency f with step d gives
Serial == [f \in 1..NF |-> Value(f, Tuned(Step0, f))]
BInit == /\ todo = 1..NF /\ pc = [t \in 1..NT |-> "idle"] /\ fr = [t \in 1..NT |-> 0]
         /\ loc = [t \in 1..NT |-> 0] /\ shared = Step0 /\ slot = [f \in 1..NF |-> 0]
Take(t) == /\ pc[t] = "idle" /\ \E f \in todo : /\ todo' = todo \ {f} /\ fr' = [fr EXCEPT ![t] = f]
           /\ pc' = [pc EXCEPT ![t] = "copied"] /\ loc' = [loc EXCEPT ![t] = shared] /\ UNCHANGED <<shared, slot>>
Tune(t) == /\ pc[t] = "copied" /\ pc' = [pc EXCEPT ![t] = "tuned"] /\ UNCHANGED <<todo, fr, slot>>
           /\ IF Private THEN loc' = [loc EXCEPT ![t] = Tuned(loc[t], fr[t])] /\ UNCHANGED shared
              ELSE shared' = Tuned(shared, fr[t]) /\ loc' = loc
Store(t) == /\ pc[t] = "tuned" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<todo, fr, loc, shared>>
            /\ slot' = [slot EXCEPT ![fr[t]] = Value(fr[t], IF Private THEN loc[t] ELSE shared)]
BNext == \E t \in 1..NT : Take(t) \/ Tune(t) \/ Store(t)
BDone == todo = {} /\ \A t \in 1..NT : pc[t] = "idle"
ScheduleFree == BDone => slot = Serial
NoTearing == \A f \in 1..NF : slot[f] \in {0, Serial[f]}
=============================================================================
