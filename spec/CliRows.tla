------------------------------- MODULE CliRows -------------------------------
(* only the choice of invocations: every base with up to MaxDev slots changed         *)
EXTENDS CliMC
SpecRows == Init /\ [][Choose]_vars
Table == (dev = 0 /\ st = "choosing") => Emit([table |-> cmd, slots |-> [k \in 1..Len(v) |-> [key |-> Slots(cmd)[k].key, opt |-> Slots(cmd)[k].opt, good |-> Slots(cmd)[k].good, bad |-> Slots(cmd)[k].bad]]])
=============================================================================
