------------------------------- MODULE FreeList -------------------------------
(***************************************************************************)
(* FreeWork, for TLC: in simulation (FreeSched.cfg) it generates schedules *)
(* that are forced on the real code: see harness/d_conc.go.                *)
(***************************************************************************)
EXTENDS FreeWork, TLC, Json
Emit == Finished => PrintT("BEHAVIOUR " \o ToJson([sched |-> sched]))
===============================================================================
