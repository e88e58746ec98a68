--------------------------------- MODULE Pure ---------------------------------
(* Observations of a quantity that must be a pure function of its key: whatever else *)
(* was requested with it, in whichever run, order or number of threads.               *)
EXTENDS VP
(* obs: sequence of integer vectors (same quantisation); tol absolute, rel denominator *)
Pure(obs, tol, rel) == \A a \in 1..Len(obs) : NearSeq(obs[a], obs[1], tol, rel)
=============================================================================
