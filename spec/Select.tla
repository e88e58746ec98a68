-------------------------------- MODULE Select --------------------------------
(* Choice of one stored Green's function: stored is a sequence of <<source depth,  *)
(* receiver depth, distance>> (one per directory), a selector is << >> when left    *)
(* out or <<v>>.  The answer is the position of the directory used, 0 = refused.    *)
EXTENDS VP
Axis(stored, a) == { stored[k][a] : k \in 1..Len(stored) }
Hit(e, sel) == \A a \in 1..3 : sel[a] = << >> \/ sel[a][1] = e[a]
Hits(stored, sel) == { k \in 1..Len(stored) : Hit(stored[k], sel) }
(* a selector may only be left out where the library has a single value *)
Complete(stored, sel) == \A a \in 1..3 : sel[a] # << >> \/ Cardinality(Axis(stored, a)) = 1
Pick(stored, sel) ==
  IF stored = << >> \/ ~Complete(stored, sel) \/ Cardinality(Hits(stored, sel)) # 1 THEN 0
  ELSE CHOOSE k \in Hits(stored, sel) : TRUE
PickLeaf(k, sel) == IF \A a \in 1..3 : sel[a] = << >> THEN k ELSE 0
=============================================================================
