------------------------------ MODULE FrameTrace ------------------------------
(***************************************************************************)
(* Judges recorded histories of calls against Frame.tla.  C14.             *)
(* begin: a new process                                                    *)
(* call:  a call of the library; what all objects look like after it, and  *)
(*        for deterministic functions its result                           *)
(* new:   an object that the program made or that a call returned          *)
(* try:   a call with arguments that are not what the function asks for    *)
(*        (a point that is not on the curve): it may fail in any way, but  *)
(*        in the same way each time, and it writes into nothing            *)
(* write: the program overwrites one of its buffers                        *)
(* drop:  objects that are followed no longer                              *)
(***************************************************************************)
EXTENDS TraceBase, Frame

VARIABLES heap, memo

Allowed(e) ==
  CASE e.op = "begin" -> TRUE
    [] e.op = "call" -> /\ e.res \in {"ok", "error"}
                        /\ Sees(heap, e.after)
                        /\ Has(e, "key") => Same(memo, e.key, e.val)
    [] e.op = "try" -> /\ Sees(heap, e.after)
                       /\ Has(e, "key") => Same(memo, e.key, e.val)
    [] e.op = "new" -> e.id \notin DOMAIN heap
    [] e.op = "write" -> Sees(Written(heap, e.id, e.d), e.after)
    [] e.op = "drop" -> TRUE
    [] OTHER -> FALSE

Heap1(e) ==
  CASE e.op = "begin" -> << >>
    [] e.op = "new" -> NewObj(heap, e.id, e.d)
    [] e.op = "write" -> e.after @@ Written(heap, e.id, e.d)
    [] e.op \in {"call", "try"} -> e.after @@ heap     \* a deviation is reported once
    [] e.op = "drop" -> Dropped(heap, {e.ids[i] : i \in DOMAIN e.ids})
    [] OTHER -> heap

Init == l = 1 /\ heap = << >> /\ memo = << >>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ IF Allowed(e) THEN TRUE ELSE Reject(e, "FrameTrace " \o e.op)
           /\ heap' = Heap1(e)
           /\ memo' = IF e.op = "begin" THEN << >> ELSE
                      IF e.op \in {"call", "try"} /\ Has(e, "key") THEN Noted(memo, e.key, e.val) ELSE memo
Spec == Init /\ [][Next]_<<l, heap, memo>>
===============================================================================
