----------------------------- MODULE EntropyTrace -----------------------------
(***************************************************************************)
(* Entropy failures (driver entropy).  A call that needs e.need bytes of   *)
(* entropy is given a source that fails after e.at bytes (at = -1: never). *)
(* The specification is the two-outcome relation below; see Entropy.tla    *)
(* for the model of a prover drawing nonces from a failing source.         *)
(***************************************************************************)
EXTENDS TraceBase

Outcome(need, at) == IF at = -1 \/ at >= need THEN "proof" ELSE "error"

Allowed(e) == /\ e.op = "entropy"
              /\ e.need > 0
              /\ e.res = Outcome(e.need, e.at)
              /\ e.same = 1

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ IF Allowed(Trace[l]) THEN TRUE ELSE Reject(Trace[l], "EntropyTrace")
Spec == Init /\ [][Next]_l
===============================================================================
