------------------------------ MODULE WrapperTrace ------------------------------
(* One recorded call of a session: fn, the construction arguments o of the handle,  *)
(* the call's own arguments a, how often the executable ran, the request read back   *)
(* from the argument vector, the exit status the executable gave, whether an          *)
(* exception came out; and, for real runs, whether what was returned is what the      *)
(* command wrote.                                                                      *)
EXTENDS Wrapper, TraceRun
CallOk(r) ==
  IF r.fn = "new" THEN r.runs = 0 /\ (r.exc # "" <=> Refused(r.fn, r.o, r.a))
  ELSE IF Refused(r.fn, r.o, r.a) THEN r.runs = 0 /\ r.exc # ""
  ELSE /\ r.runs = 1
       /\ r.req = Request(r.fn, r.o, r.a)
       /\ (r.exc # "" <=> r.rc # 0)
RealOk(r) == r.exc = r.wantexc /\ r.got = r.want
WaveOk(r) == r.exc = r.wantexc /\ NearSeq(r.got, r.want, 6, 1000000)
Ok(r) == CASE r.kind = "call" -> CallOk(r) [] r.kind = "real" -> RealOk(r) [] r.kind = "wave" -> WaveOk(r)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
