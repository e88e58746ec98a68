------------------------------ MODULE GrnRootMC -------------------------------
(* Every history of at most MaxRuns steps: runs of two models with overlapping axes *)
(* and strangers dropped into the root; finished histories are emitted.              *)
EXTENDS GrnRoot
CONSTANTS MaxRuns, Rich
VARIABLES root, stray, hist
vars == <<root, stray, hist>>
Liquid(s) == s = "0.5"                          \* depth 0.5 lies in the water layer
Q(m, s, r, d, sel, u) == [model |-> m, ds |-> s, dr |-> r, r |-> d, sel |-> sel, upar |-> u]
Requests ==
  { Q("m", {"2"}, {"0.5"}, {"1"}, Types, FALSE), Q("m", {"2"}, {"0.5"}, {"1", "10"}, {"e"}, TRUE),
    Q("m", {"0.5", "2"}, {"12"}, {"1"}, {"e", "v", "s"}, FALSE), Q("m", {"0.5"}, {"2"}, {"1"}, {"v", "h"}, FALSE),
    Q("m", {"0.5", "2", "12"}, {"2", "12"}, {"10"}, {"h"}, FALSE), Q("m", {"2"}, {"0.5"}, {"1.0"}, {"v"}, FALSE),
    Q("m_2", {"2"}, {"0.5"}, {"1"}, {"e"}, FALSE) } \cup
  (IF Rich THEN { Q("m", {"2", "12"}, {"0.5", "12"}, {"1", "12"}, {"s"}, TRUE), Q("m", {"12"}, {"2"}, {"1"}, {"e", "h"}, TRUE),
                  Q("m_2", {"0.5", "2"}, {"2"}, {"10"}, Types, TRUE) } ELSE {})
Strangers == {"file", "dir", "hidden", "badname", "othermodel"}
Init == root = {} /\ stray = {} /\ hist = << >>
Run(q) ==
  /\ Len(hist) < MaxRuns
  /\ IF Accepts(root, stray, q)
     THEN root' = AfterRun(root, q, Len(hist) + 1, Liquid)
     ELSE root' = root
  /\ hist' = Append(hist, [a |-> "run", q |-> q, s |-> ""]) /\ UNCHANGED stray
Drop(s) == /\ Len(hist) < MaxRuns /\ Len(hist) > 0 /\ stray = {} /\ stray' = {s}
           /\ hist' = Append(hist, [a |-> "drop", q |-> CHOOSE q \in Requests : TRUE, s |-> s]) /\ UNCHANGED root
Next == (\E q \in Requests : Run(q)) \/ (\E s \in Strangers : Drop(s))
Spec == Init /\ [][Next]_vars
(* ---- properties ---- *)
OneModel == \A a, b \in root : a.model = b.model
OwnDir == \A a, b \in root : DirName(a.model, a.ds, a.dr, a.r) = DirName(b.model, b.ds, b.dr, b.r) => a = b
NoAxisymmetricT == \A e \in root : \A f \in e.files : f[1] \notin {"EXT", "VFT", "DDT", "zEXT", "rEXT", "zVFT", "rVFT"}
LiquidOnlyEX == \A e \in root : Liquid(e.ds) => \A f \in e.files : f[1] \in FilesOf({"e"}, TRUE, TRUE)
OneVersion == \A e \in root : \A f, g \in e.files : f[1] = g[1] => f = g
Inv == OneModel /\ OwnDir /\ NoAxisymmetricT /\ LiquidOnlyEX /\ OneVersion
Last == hist'[Len(hist')]
Untouched == [][Last.a = "run" => \A e \in root : (<<e.ds, e.dr, e.r>> \notin Combos(Last.q) \/ stray # {} \/ e.model # Last.q.model) => e \in root']_vars
RefusedTouchesNothing == [][(Last.a = "run" /\ ~Accepts(root, stray, Last.q)) => root' = root]_vars
EmitDone == Len(hist) = MaxRuns => Emit([hist |-> hist])
=============================================================================
