-------------------------------- MODULE Frame --------------------------------
(***************************************************************************)
(* The memory that a program using the library can see.  heap maps every   *)
(* object (scalar, point, proof, key, byte buffer up to its capacity, the  *)
(* parameters and package variables) to its contents; memo maps every call *)
(* of a deterministic function (its name and the contents of its           *)
(* arguments) to its result.                                               *)
(*                                                                         *)
(* Calls change no object that exists, make only new objects, and return   *)
(* the result that the same call returned before.  Only the caller changes *)
(* an object, and then that one alone changes: a buffer that was passed in *)
(* or returned is shared with nothing.                                     *)
(***************************************************************************)
EXTENDS TLC

Sees(heap, seen) == \A i \in DOMAIN seen : i \in DOMAIN heap /\ heap[i] = seen[i]
Same(memo, key, val) == key \in DOMAIN memo => memo[key] = val
NewObj(heap, i, d) == (i :> d) @@ heap
Written(heap, i, d) == [heap EXCEPT ![i] = d]
Dropped(heap, ids) == [i \in DOMAIN heap \ ids |-> heap[i]]
Noted(memo, key, val) == IF key \in DOMAIN memo THEN memo ELSE (key :> val) @@ memo
===============================================================================
