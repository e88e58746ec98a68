------------------------------- MODULE TraceRun -------------------------------
(* Walks a file of recorded observations in parallel chunks.  A trace module      *)
(* defines Ok(record) and uses  Init == TInit  and                                 *)
(*   Next == TGuard /\ TJudge(Ok(Recs[i]))                                         *)
(* Rejected records and the number of judged records are printed for the harness.  *)
EXTENDS VP, IOUtils
VARIABLES c, i
Recs == ndJsonDeserialize(IOEnv.VP_TRACE)
NChunk == 8
ChunkLo(k) == ((k - 1) * Len(Recs)) \div NChunk + 1
ChunkHi(k) == (k * Len(Recs)) \div NChunk
TInit == c \in 1..NChunk /\ i = ChunkLo(c)
TGuard == i <= ChunkHi(c)
TJudge(ok) ==
  /\ IF ("err" \notin DOMAIN Recs[i]) /\ ok THEN TRUE ELSE Emit([reject |-> i])
  /\ i' = i + 1 /\ c' = c
  /\ IF i < ChunkHi(c) THEN TRUE ELSE Emit([done |-> c, count |-> ChunkHi(c) - ChunkLo(c) + 1])
=============================================================================
