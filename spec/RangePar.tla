-------------------------------- MODULE RangePar --------------------------------
\* RangeWork, printing finished schedules for the replay (harness/d_par.go).
EXTENDS RangeWork, TLC, Json
Emit == Returned => PrintT("BEHAVIOUR " \o ToJson([what |-> what, sched |-> sched]))
================================================================================
