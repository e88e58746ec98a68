-------------------------------- MODULE GrnRoot -------------------------------
(* Output planning of a Green's-function run and the state of an output root over a *)
(* history of runs.  A run asks for every (source depth, receiver depth, distance)   *)
(* of three axes, for a selection of source types and with or without derivatives.   *)
EXTENDS VP
Types == {"e", "v", "h", "s"}
Base(t) == CASE t = "e" -> {"EXZ", "EXR"}
             [] t = "v" -> {"VFZ", "VFR"}
             [] t = "h" -> {"HFZ", "HFR", "HFT"}
             [] t = "s" -> {"DDZ", "DDR", "DSZ", "DSR", "DST", "SSZ", "SSR", "SST"}
(* a source in a liquid layer only radiates as an explosion *)
Allowed(sel, liquid) == IF liquid THEN sel \cap {"e"} ELSE sel
Names(sel, liquid) == UNION { Base(t) : t \in Allowed(sel, liquid) }
FilesOf(sel, liquid, upar) ==
  LET n == Names(sel, liquid) IN IF upar THEN n \cup { "z" \o x : x \in n } \cup { "r" \o x : x \in n } ELSE n
DirName(m, s, r, d) == m \o "_" \o s \o "_" \o r \o "_" \o d
(* what may lie in a root that a run for model m accepts *)
Recognised(m, roots) == \A x \in roots : x.model = m
(* root: set of [model, ds, dr, r, files] with files a set of <<name, run>> ; stray: set of foreign names *)
Put(old, new, k) == { f \in old : f[1] \notin new } \cup { <<n, k>> : n \in new }
Combos(q) == { <<s, r, d>> : s \in q.ds, r \in q.dr, d \in q.r }
Accepts(root, stray, q) == stray = {} /\ \A e \in root : e.model = q.model
AfterRun(root, q, k, liquid(_)) ==
  { e \in root : <<e.ds, e.dr, e.r>> \notin Combos(q) }
  \cup { LET old == { e \in root : e.ds = c[1] /\ e.dr = c[2] /\ e.r = c[3] } IN
         [model |-> q.model, ds |-> c[1], dr |-> c[2], r |-> c[3],
          files |-> Put(UNION { e.files : e \in old }, FilesOf(q.sel, liquid(c[1]), q.upar), k)] : c \in Combos(q) }
=============================================================================
