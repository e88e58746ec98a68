------------------------------- MODULE StTensor -------------------------------
(* A static result file under a sequence of strain/rotation/stress commands (C11).   *)
(* The file carries displacement and, if upar, its derivatives; each command adds its  *)
(* own variables once and changes nothing else; without derivatives, and when its      *)
(* variables are already there, it is refused and leaves the file as it was.           *)
EXTENDS Tensor
Ops == {"strain", "rotation", "stress"}
NComp(op) == IF op = "rotation" THEN 3 ELSE 6
RECURSIVE Has(_, _, _)
Has(upar, steps, n) == IF n = 0 THEN {} ELSE
   Has(upar, steps, n - 1) \cup (IF upar THEN {steps[n]} ELSE {})
Accepts(upar, steps, n) == upar /\ steps[n] \notin Has(upar, steps, n - 1)
=============================================================================
