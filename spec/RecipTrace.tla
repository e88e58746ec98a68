------------------------------ MODULE RecipTrace ------------------------------
(* Recorded Green's functions for (s -> r) and (r -> s), and recorded syntheses.   *)
EXTENDS Recip, TraceRun
(* x: the forward component, sample by sample; b: the reversed components in the    *)
(* same unit                                                                        *)
At(s, k) == [j \in 1..5 |-> s[j][k]]
RelOk(r) ==
  \A k \in 1..Len(r.x) :
    LET b == [u |-> At(r.u, k), o |-> At(r.o, k), z |-> At(r.z, k), r |-> At(r.r, k)] IN
    Near(r.x[k], Rel(r.name, b), r.tol, 1000000)
(* syntheses: f . u(M or F) against M : E(f) or F . u(f), samples already in one unit *)
DotE(m, e) == m[1]*e[4] + 2*m[2]*e[5] - 2*m[3]*e[2] + m[4]*e[6] - 2*m[5]*e[3] + m[6]*e[1]   \* e = zz zn ze nn ne ee
SynOk(r) ==
  \A k \in 1..Len(r.u[1]) :
    LET l == DotF(r.f, [j \in 1..3 |-> r.u[j][k]])
        h == IF r.kind = "synF" THEN DotF(r.f0, [j \in 1..3 |-> r.w[j][k]])
             ELSE DotE(r.m, [j \in 1..6 |-> r.w[j][k]])
    IN Abs(l - h) <= r.tol
Ok(r) == r.ok /\ (IF r.kind = "rel" THEN RelOk(r) ELSE SynOk(r))

Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
