------------------------------- MODULE RangeWork -------------------------------
(***************************************************************************)
(* The parallel structure of range proofs.  (RangePar: the same, and it    *)
(* prints schedules.  RangeWorkProofs: the safety properties hold for any  *)
(* number of workers, steps and any capacity.)                             *)
(*                                                                         *)
(* Proving: one worker per bit draws and commits (phase A), a barrier, the *)
(* hash of all the workers' commitments, one worker per bit answers it     *)
(* (phase B), a barrier, the result.  A worker whose draw fails reports it *)
(* in its own slot and ends.                                               *)
(* Verifying: one worker per bit sends [index, point] through a channel of *)
(* bounded capacity; the caller receives as many as there are workers.     *)
(*                                                                         *)
(* A slot holds the worker that wrote it; a digest is the sequence of the  *)
(* slots.  TLC checks for all schedules that the digest is that of the     *)
(* sequential computation, that no worker is left when the call returns,   *)
(* and that it returns.  In simulation (RangeSched.cfg) the same module    *)
(* generates schedules for the real code: see harness/d_par.go.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W,        \* workers
          Steps,    \* steps of a worker before it writes or sends
          Cap,      \* capacity of the verifier's channel
          Record    \* whether to remember the schedule
VARIABLES what,     \* "prove" or "verify"
          main,     \* "A" "B" (workers started), "recv", "ok", "error"
          at,       \* at[i]: steps done by worker i in this phase; Steps + 1: ended; -1: not started
          slotA, slotB, fails, chan, got, digest, sched
vars == <<what, main, at, slotA, slotB, fails, chan, got, digest, sched>>

Ws == 1 .. W
None == [i \in Ws |-> 0]
Ended(i) == at[i] = Steps + 1
Log(i) == sched' = IF Record THEN Append(sched, i) ELSE sched

Init == /\ what \in {"prove", "verify"}
        /\ main = (IF what = "prove" THEN "A" ELSE "recv")
        /\ at = [i \in Ws |-> 0]
        /\ slotA = None /\ slotB = None /\ got = None /\ chan = <<>> /\ digest = <<>> /\ sched = <<>>
        /\ fails \in IF what = "prove" /\ ~Record THEN {{}} \cup {{x} : x \in {"A", "B"} \X Ws} ELSE {{}}

Step(i) == /\ at[i] < Steps
           /\ at' = [at EXCEPT ![i] = @ + 1]
           /\ Log(i)
           /\ UNCHANGED <<what, main, slotA, slotB, fails, chan, got, digest>>
\* the last step: write the own slot, or send
Finish(i) == /\ at[i] = Steps
             /\ at' = [at EXCEPT ![i] = Steps + 1]
             /\ Log(i)
             /\ CASE main = "A" -> /\ slotA' = IF <<"A", i>> \in fails THEN slotA ELSE [slotA EXCEPT ![i] = i]
                                   /\ UNCHANGED <<slotB, chan>>
                  [] main = "B" -> /\ slotB' = IF <<"B", i>> \in fails THEN slotB ELSE [slotB EXCEPT ![i] = i]
                                   /\ UNCHANGED <<slotA, chan>>
                  [] OTHER -> /\ Len(chan) < Cap
                              /\ chan' = Append(chan, i)
                              /\ UNCHANGED <<slotA, slotB>>
             /\ UNCHANGED <<what, main, fails, got, digest>>
Worker(i) == Step(i) \/ Finish(i)

Failed(p) == \E i \in Ws : <<p, i>> \in fails
Barrier == /\ main \in {"A", "B"}
           /\ \A i \in Ws : Ended(i)
           /\ IF Failed(main) THEN main' = "error" /\ UNCHANGED <<at, digest>>
              ELSE IF main = "A" THEN main' = "B" /\ digest' = slotA /\ at' = [i \in Ws |-> 0]
              ELSE main' = "ok" /\ UNCHANGED <<at, digest>>
           /\ UNCHANGED <<what, slotA, slotB, fails, chan, got, sched>>
Receive == /\ main = "recv" /\ chan # <<>>
           /\ got' = [got EXCEPT ![Head(chan)] = Head(chan)]
           /\ chan' = Tail(chan)
           /\ UNCHANGED <<what, main, at, slotA, slotB, fails, digest, sched>>
Return == /\ main = "recv" /\ \A i \in Ws : got[i] # 0
          /\ digest' = got /\ main' = "ok"
          /\ UNCHANGED <<what, at, slotA, slotB, fails, chan, got, sched>>
Next == (\E i \in Ws : Worker(i)) \/ Barrier \/ Receive \/ Return
Safety == Init /\ [][Next]_vars
Spec == Safety /\ \A i \in Ws : WF_vars(Worker(i)) /\ WF_vars(Barrier) /\ WF_vars(Receive) /\ WF_vars(Return)

Returned == main \in {"ok", "error"}
\* what the sequential computation gives
Sequential == [i \in Ws |-> i]
Deterministic == /\ main \in {"B", "ok"} => digest = Sequential
                 /\ main = "ok" /\ what = "prove" => slotB = Sequential
                 /\ main = "ok" => fails = {}
                 /\ main = "error" => fails # {}
Quiet == Returned => \A i \in Ws : Ended(i)
NothingLeft == Returned => chan = <<>>
Terminates == <>Returned
================================================================================
