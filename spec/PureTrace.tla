------------------------------- MODULE PureTrace ------------------------------
(* Each record holds every observation of one key: [key, obs, tol, rel, n]; n is the *)
(* number of runs in which the key was requested, so a missing answer shows.          *)
EXTENDS Pure, TraceRun
Ok(r) == r.ok /\ Len(r.obs) = r.n /\ Pure(r.obs, r.tol, r.rel)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
