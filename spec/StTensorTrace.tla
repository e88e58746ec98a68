----------------------------- MODULE StTensorTrace ----------------------------
EXTENDS StTensor, TraceRun
Close(o, e) == Len(o) = Len(e) /\ \A k \in 1..Len(e) : Abs(o[k] - e[k]) <= 1 + Abs(e[k]) \div 1000000
StepOk(r, n) ==
  LET s == r.log[n] IN
  /\ s.rc0 = Accepts(r.upar, r.steps, n)
  /\ s.untouched                                            \* everything that was there, bit by bit
  /\ {s.have[k] : k \in 1..Len(s.have)} = Has(r.upar, r.steps, n)
ValuesOk(r) ==
  \A k \in 1..Len(r.pt) :
    LET p == r.pt[k]
        g == PhysG(p.u, p.d, r.zne, p.r)
        L == Lame(p.rho, p.va, p.vb)
        H == Has(r.upar, r.steps, Len(r.steps))
    IN /\ ("strain" \in H => Close(p.strain, [j \in 1..6 |-> 5 * Strain2(g)[j]]))
       /\ ("rotation" \in H => Close(p.rotation, [j \in 1..3 |-> 5 * Rotation2(g)[j]]))
       /\ ("stress" \in H => Close(p.stress, Stress(g, L)))
Ok(r) == /\ Len(r.log) = Len(r.steps)
         /\ \A n \in 1..Len(r.log) : StepOk(r, n)
         /\ ValuesOk(r)
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
