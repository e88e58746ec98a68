----------------------------- MODULE GrnRootTrace -----------------------------
(* A record is one history: model (layers in milli-units), steps, and after every    *)
(* step the exit status and the observed tree.  The expected tree is recomputed by    *)
(* GrnRoot; headers of every file have to identify its depths, distance, sampling,    *)
(* first sample, component and media.                                                 *)
EXTENDS GrnRoot, TraceRun
(* layer containing depth z (all in the same unit); an interface belongs to the layer above *)
RECURSIVE LayerAt(_, _, _, _)
LayerAt(m, z, k, top) == IF k = Len(m) \/ z <= top + m[k][1] THEN k ELSE LayerAt(m, z, k + 1, top + m[k][1])
Med(m, z) == LET l == m[LayerAt(m, z, 1, 0)] IN <<l[2], l[3], l[4]>>
LiquidAt(m, z) == Med(m, z)[2] = 0
ToSet(s) == { s[j] : j \in 1..Len(s) }
Req(q) == [model |-> q.model, ds |-> ToSet(q.ds), dr |-> ToSet(q.dr), r |-> ToSet(q.r), sel |-> ToSet(q.sel), upar |-> q.upar]
ObsDir(o) == [model |-> o.model, ds |-> o.ds, dr |-> o.dr, r |-> o.r, files |-> UNION { { <<n, g.run>> : n \in ToSet(g.files) } : g \in ToSet(o.groups) }]
HdrOk(m, dep, rv, o, g, st) ==
  LET q == st[g.run] IN
  /\ g.nameok
  /\ Near(g.evdp, dep[o.ds], 2, 1000000) /\ Near(g.rcv, dep[o.dr], 2, 1000000) /\ Near(g.dist, rv[o.r], 2, 1000000)
  /\ g.npts = q.npts /\ Near(g.dt, q.dt, 2, 1000000) /\ Near(g.b, q.b, 2, 1000000) /\ Near(g.wI, q.wI, 2, 100000)
  /\ \A j \in 1..3 : Near(g.src[j], Med(m, dep[o.ds])[j], 2, 1000000) /\ Near(g.rcvm[j], Med(m, dep[o.dr])[j], 2, 1000000)
RECURSIVE Walk(_, _, _, _)
Walk(r, k, root, stray) ==
  IF k > Len(r.steps) THEN TRUE
  ELSE LET s == r.steps[k]  o == r.obs[k]
           L(d) == LiquidAt(r.model, r.dep[d])
           q == Req(s.q)
           acc == Accepts(root, stray, q)
           nroot == IF s.a = "run" /\ acc THEN AfterRun(root, q, k, L) ELSE root
           nstray == IF s.a = "drop" THEN {s.s} ELSE stray
       IN /\ s.a = "run" => o.rc0 = acc
          /\ o.strayok
          /\ (s.a = "run" /\ ~acc) => o.same
          /\ { ObsDir(d) : d \in ToSet(o.dirs) } = nroot /\ Len(o.dirs) = Cardinality(nroot)
          /\ \A d \in ToSet(o.dirs) : \A g \in ToSet(d.groups) : HdrOk(r.model, r.dep, r.rv, d, g, r.steps)
          /\ Walk(r, k + 1, nroot, nstray)
Ok(r) == r.ok /\ Walk(r, 1, {}, {})
Next == TGuard /\ TJudge(Ok(Recs[i]))
Spec == TInit /\ [][Next]_<<c, i>>
=============================================================================
