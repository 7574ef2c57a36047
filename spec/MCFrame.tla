------------------------------- MODULE MCFrame -------------------------------
(***************************************************************************)
(* Frame.tla on a small heap: whatever calls and writes come in whatever   *)
(* order, an object holds what its owner last wrote into it, and equal     *)
(* calls have equal results.  The mutant "leak" (a call that also writes   *)
(* an object) is told apart by Sees at once: SeesIsExact.                  *)
(***************************************************************************)
EXTENDS Frame, Naturals

Ids == 1 .. 4
Vals == 0 .. 2
VARIABLES heap, memo, own, res   \* own: what the owner last wrote; res: all results seen

f(h, a) == (h[a] * 2 + 1) % 3    \* some function of the contents

Init == heap = << >> /\ memo = << >> /\ own = << >> /\ res = {}
Make == \E i \in Ids \ DOMAIN heap, v \in Vals :
           heap' = NewObj(heap, i, v) /\ own' = NewObj(own, i, v) /\ UNCHANGED <<memo, res>>
Call == \E a \in DOMAIN heap :
          LET key == <<"f", heap[a]>> val == f(heap, a) IN
          /\ Assert(Same(memo, key, val), "a function gives one result")
          /\ memo' = Noted(memo, key, val)
          /\ res' = res \cup {<<key, val>>}
          /\ UNCHANGED <<heap, own>>
Returns == \E a \in DOMAIN heap, i \in Ids \ DOMAIN heap :   \* a call that returns a new buffer
          /\ heap' = NewObj(heap, i, f(heap, a))
          /\ own' = NewObj(own, i, f(heap, a))
          /\ UNCHANGED <<memo, res>>
Write == \E i \in DOMAIN heap, v \in Vals :
          heap' = Written(heap, i, v) /\ own' = Written(own, i, v) /\ UNCHANGED <<memo, res>>
Drop == \E i \in DOMAIN heap : heap' = Dropped(heap, {i}) /\ own' = Dropped(own, {i}) /\ UNCHANGED <<memo, res>>
Next == Make \/ Call \/ Returns \/ Write \/ Drop
Spec == Init /\ [][Next]_<<heap, memo, own, res>>

HoldsOwn == heap = own
OneResult == \A x, y \in res : x[1] = y[1] => x[2] = y[2]
SeesIsExact == \A i \in DOMAIN heap, v \in Vals :
                  Sees(heap, Written(heap, i, v)) <=> v = heap[i]
===============================================================================
