------------------------------- MODULE FreeWork -------------------------------
(***************************************************************************)
(* The free list of temporary buffers behind reading and writing integers. *)
(* A thread borrows a buffer (from the list, or a new one), for a write    *)
(* puts its value into it, hands it to the caller's writer or reader,      *)
(* which may keep the thread as long as it likes and may itself use the    *)
(* list (nested calls: a thread holds a stack of buffers), and returns it  *)
(* to the list if there is room.                                           *)
(*                                                                         *)
(* Checked for all interleavings: nobody else has or changes a buffer      *)
(* while it is held, a buffer is on the list at most once and never while  *)
(* held.  (FreeList: the same, and it prints schedules.  FreeWorkProofs:   *)
(* these hold for any number of threads, buffers and calls.)               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Bufs, Cap, Calls, Depth, Record
VARIABLES list,      \* free buffers, first in first out
          stack,     \* stack[t]: the buffers t holds, each [b, v]
          content,   \* what is in each buffer
          done,      \* calls finished by each thread
          sched
vars == <<list, stack, content, done, sched>>
Th == 1 .. Threads

HeldBy(t) == {stack[t][i].b : i \in DOMAIN stack[t]}
AllHeld == UNION {HeldBy(t) : t \in Th}
OnList == {list[i] : i \in DOMAIN list}
Fresh == {b \in 1 .. Bufs : b \notin AllHeld /\ b \notin OnList}
Log(x) == sched' = IF Record THEN Append(sched, x) ELSE sched

Init == list = <<>> /\ stack = [t \in Th |-> <<>>] /\ content = [b \in 1 .. Bufs |-> 0]
        /\ done = [t \in Th |-> 0] /\ sched = <<>>

\* the value a call puts into its buffer tells the calls apart
Value(t) == t + Threads * (Len(stack[t]) + (Depth + 1) * done[t])

Enter(t) == /\ Len(stack[t]) < Depth
            /\ done[t] < Calls
            /\ list # <<>> \/ Fresh # {}
            /\ \E b \in (IF list # <<>> THEN {Head(list)} ELSE {CHOOSE x \in Fresh : TRUE}) :
                 /\ list' = IF list # <<>> THEN Tail(list) ELSE list
                 /\ content' = [content EXCEPT ![b] = Value(t)]
                 /\ stack' = [stack EXCEPT ![t] = Append(@, [b |-> b, v |-> Value(t)])]
            /\ Log([t |-> t, do |-> "enter"])
            /\ UNCHANGED done
Leave(t) == /\ stack[t] # <<>>
            /\ LET top == stack[t][Len(stack[t])] IN
               list' = IF Len(list) < Cap THEN Append(list, top.b) ELSE list
            /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
            /\ done' = [done EXCEPT ![t] = @ + 1]
            /\ content' = [content EXCEPT ![stack[t][Len(stack[t])].b] = 0]   \* nobody's: it may hold anything
            /\ Log([t |-> t, do |-> "leave"])
Next == \E t \in Th : Enter(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars

Exclusive == \A t, u \in Th, i, j \in 1 .. Depth :
               (i \in DOMAIN stack[t] /\ j \in DOMAIN stack[u] /\ stack[t][i].b = stack[u][j].b) => (t = u /\ i = j)
Stable == \A t \in Th : \A i \in DOMAIN stack[t] : content[stack[t][i].b] = stack[t][i].v
ListOK == /\ \A i, j \in DOMAIN list : list[i] = list[j] => i = j
          /\ OnList \cap AllHeld = {}
          /\ Len(list) <= Cap
Finished == \A t \in Th : stack[t] = <<>> /\ done[t] >= Calls
===============================================================================
