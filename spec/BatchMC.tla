-------------------------------- MODULE BatchMC --------------------------------
(* All interleavings of the workers. *)
EXTENDS Batch
Spec == BInit /\ [][BNext]_bvars
=============================================================================
