-------------------------------- MODULE Export --------------------------------
(* Turning a binary file of fixed-size records into text: one line per record, in     *)
(* order; a file that does not end at the end of a record is refused.  Size and        *)
(* RecLen in bytes.  Lenient = TRUE is the variant that takes any short read for the   *)
(* end of the file.                                                                    *)
EXTENDS VP
CONSTANTS MaxSize, MaxRec, Lenient
VARIABLES size, rec, left, out, st
vars == <<size, rec, left, out, st>>
Init == size \in 0..MaxSize /\ rec \in 1..MaxRec /\ left = size /\ out = << >> /\ st = "run"
Line == st = "run" /\ left >= rec /\ out' = Append(out, Len(out) + 1) /\ left' = left - rec /\ UNCHANGED <<size, rec, st>>
Stop == st = "run" /\ left < rec /\ st' = (IF left = 0 \/ Lenient THEN "ok" ELSE "refused") /\ UNCHANGED <<size, rec, left, out>>
Next == Line \/ Stop
Spec == Init /\ [][Next]_vars
Faithful == (st = "ok") => Len(out) * rec = size
Refused == (st = "refused") => size % rec # 0
InOrder == \A k \in 1..Len(out) : out[k] = k
Inv == Faithful /\ Refused /\ InOrder
(* what a run on a real file must show *)
Expect(sz, head, rl, n) == IF n >= 0 THEN sz >= head + n * rl ELSE (sz - head) % rl = 0
=============================================================================
