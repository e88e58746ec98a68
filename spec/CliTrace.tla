------------------------------- MODULE CliTrace -------------------------------
(* r: cmd, v, refused (non-zero exit, not a crash), crash, msg, changed, wrote, same   *)
EXTENDS Cli, TraceRun
Ok(r) == IF Valid(r.cmd, r.v)
         THEN ~r.refused /\ ~r.crash /\ r.wrote = Produces(r.cmd, Present(r.cmd, r.v)) /\ r.same
         ELSE r.refused /\ ~r.crash /\ r.msg /\ ~r.changed
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
