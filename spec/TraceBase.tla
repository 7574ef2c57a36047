------------------------------- MODULE TraceBase -------------------------------
(***************************************************************************)
(* Reading a recorded trace.  A trace specification EXTENDS this module,   *)
(* defines Allowed(e) (and, if it has state, its update), and reports each *)
(* event that the specification does not allow with REJECT and the line    *)
(* number; bin/check.py turns those into violations.  The run goes on      *)
(* after a rejected event so that the rest of the trace is judged as well. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Has(e, f) == f \in DOMAIN e
Reject(e, why) == PrintT("REJECT " \o ToString(l) \o " " \o why)
Finished == TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
