------------------------------- MODULE BufTrace -------------------------------
(***************************************************************************)
(* Judges recordings of what the library hands to writers and readers      *)
(* (driver hold), in the order in which it happened.  C15, C10.            *)
(* hold:    a writer (reader) was called with a buffer; cells identifies   *)
(*          its bytes, data what is in it (what the reader put into it)    *)
(* release: the writer (reader) is about to return; data again             *)
(* done:    a call returned                                                *)
(* Cf. FreeList.tla: Exclusive and Stable.                                 *)
(***************************************************************************)
EXTENDS TraceBase, Wire
VARIABLE held      \* id -> [cells, data, kind]

Cells(e) == {e.cells[i] : i \in DOMAIN e.cells}
HoldOK(e) ==
  \A i \in DOMAIN held :
     \* nobody may be given a buffer that a reader fills, nor fill one that is in use; two writers
     \* may look at the same bytes only if nothing ever changes them, which release decides
     (e.kind = "read" \/ held[i].kind = "read") => Cells(e) \cap held[i].cells = {}

DoneOK(e) ==
  CASE e.f = "writeint" -> e.res = "ok" /\ e.out = EncVI(e.v)
    [] e.f = "readint" -> e.res = "ok" /\ e.got = e.v
    [] e.f = "writebytes" -> e.res = "ok" /\ e.out = EncBytes(e.v)
    [] e.f = "readbytes" -> e.res = "ok" /\ e.got = e.v
    [] e.f = "random" -> e.res = "ok" /\ e.got \in {BOfHex(e.v), BOfHex(HexRev(e.v))}
    [] OTHER -> FALSE

Allowed(e) ==
  CASE e.op = "begin" -> TRUE
    [] e.op = "hold" -> HoldOK(e)
    [] e.op = "release" -> e.id \in DOMAIN held => held[e.id].data = e.data
    [] e.op = "done" -> DoneOK(e)
    [] OTHER -> FALSE

Init == l = 1 /\ held = << >>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ IF Allowed(e) THEN TRUE ELSE Reject(e, "BufTrace " \o e.op)
           /\ held' = CASE e.op = "begin" -> << >>
                        [] e.op = "hold" -> (e.id :> [cells |-> Cells(e), data |-> e.data, kind |-> e.kind]) @@ held
                        [] e.op = "release" -> [i \in DOMAIN held \ {e.id} |-> held[i]]
                        [] OTHER -> held
Spec == Init /\ [][Next]_<<l, held>>
===============================================================================
