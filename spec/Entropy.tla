-------------------------------- MODULE Entropy --------------------------------
(***************************************************************************)
(* A prover that draws its nonces one after the other from a source that   *)
(* may deliver any part of what is asked for, and may fail for good at any *)
(* point.  The result is a proof only if every nonce was completely drawn. *)
(* (io.ReadFull semantics: short reads are continued, an error ends it.)   *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Nonces,   \* number of nonces of the proof
          Width     \* bytes per nonce
VARIABLES drawn,    \* nonces drawn
          part,     \* bytes of the current nonce
          left,     \* bytes the source will still deliver
          total,    \* bytes it had
          out       \* "busy", "proof", "error"

vars == <<drawn, part, left, total, out>>
Need == Nonces * Width

Init == /\ drawn = 0 /\ part = 0 /\ out = "busy"
        /\ total \in 0 .. Need + 1 /\ left = total

Read == /\ out = "busy" /\ drawn < Nonces /\ left > 0
        /\ \E n \in 1 .. (Width - part) :
             /\ n <= left
             /\ left' = left - n
             /\ IF part + n = Width THEN drawn' = drawn + 1 /\ part' = 0
                                    ELSE drawn' = drawn /\ part' = part + n
        /\ UNCHANGED <<total, out>>
Fail == /\ out = "busy" /\ drawn < Nonces /\ left = 0
        /\ out' = "error" /\ UNCHANGED <<drawn, part, left, total>>
Done == /\ out = "busy" /\ drawn = Nonces
        /\ out' = "proof" /\ UNCHANGED <<drawn, part, left, total>>
Next == Read \/ Fail \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Outcome == out = "proof" => total >= Need
Outcome2 == out = "error" => total < Need
NoPartial == out = "proof" => drawn = Nonces /\ part = 0
Terminates == <>(out # "busy")
===============================================================================
