------------------------------ MODULE ExportTrace -----------------------------
(* One export of one real file.  rows: the tokens of each record of the binary at the  *)
(* precision they were printed with; got: the tokens printed; dig: fewest significant  *)
(* digits printed; t: error of each abscissa in hundredths of its last float digit.    *)
(* form: the file's fixed part is what the format asks for.  head: column names.       *)
EXTENDS VP, TraceRun
Well(r) == r.form /\ (IF r.n >= 0 THEN r.size >= r.head + r.n * r.rec ELSE r.size >= r.head /\ (r.size - r.head) % r.rec = 0)
Prefix(a, b) == \A k \in 1..Min2(Len(a), Len(b)) : a[k] = b[k]
Ok(r) == IF Well(r) THEN /\ r.exit = 0 /\ r.got = r.rows /\ r.dig >= r.mindig /\ r.names = r.wantnames
                         /\ \A k \in 1..Len(r.t) : r.t[k] <= 250
         ELSE /\ r.exit # 0 /\ r.msg
              /\ Len(r.got) <= Len(r.rows) + 1 /\ Prefix(r.got, r.rows)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
