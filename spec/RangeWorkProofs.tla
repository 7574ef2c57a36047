---------------------------- MODULE RangeWorkProofs ----------------------------
(***************************************************************************)
(* For any number of workers, any number of steps and any capacity of the  *)
(* channel: what is computed in parallel is what would be computed         *)
(* sequentially, and nothing is left behind.  Checked by tlapm.            *)
(***************************************************************************)
EXTENDS RangeWork, TLAPS

ASSUME Sizes == W \in Nat /\ Steps \in Nat /\ Cap \in Nat /\ Record \in BOOLEAN

TypeOK == /\ what \in {"prove", "verify"}
          /\ main \in {"A", "B", "recv", "ok", "error"}
          /\ at \in [Ws -> 0 .. Steps + 1]
          /\ slotA \in [Ws -> 0 .. W] /\ slotB \in [Ws -> 0 .. W] /\ got \in [Ws -> 0 .. W]
          /\ chan \in Seq(Ws)
          /\ fails \subseteq ({"A", "B"} \X Ws)

Proving == what = "prove" =>
  /\ main \in {"A", "B", "ok", "error"}
  /\ chan = <<>>
  /\ main = "A" => \A i \in Ws : Ended(i) /\ <<"A", i>> \notin fails => slotA[i] = i
  /\ main = "B" => /\ digest = Sequential
                   /\ \A i \in Ws : <<"A", i>> \notin fails
                   /\ \A i \in Ws : Ended(i) /\ <<"B", i>> \notin fails => slotB[i] = i
  /\ main = "ok" => digest = Sequential /\ slotB = Sequential /\ fails = {} /\ \A i \in Ws : Ended(i)
  /\ main = "error" => fails # {} /\ \A i \in Ws : Ended(i)

Verifying == what = "verify" =>
  /\ main \in {"recv", "ok"}
  /\ fails = {}
  /\ \A k \in 1 .. Len(chan) : Ended(chan[k]) /\ got[chan[k]] = 0
  /\ \A k, m \in 1 .. Len(chan) : chan[k] = chan[m] => k = m
  /\ \A i \in Ws : got[i] # 0 => got[i] = i /\ Ended(i)
  /\ main = "ok" => digest = Sequential /\ \A i \in Ws : got[i] # 0

Inv == TypeOK /\ Proving /\ Verifying

LEMMA Start == Init => Inv
  <1> USE Sizes
  <1> SUFFICES ASSUME Init PROVE Inv
    OBVIOUS
  <1>1. /\ what \in {"prove", "verify"}
        /\ what = "prove" => main = "A"
        /\ what = "verify" => main = "recv" /\ what # "prove"
        /\ what = "verify" => fails = {}
        /\ at = [i \in Ws |-> 0] /\ slotA = None /\ slotB = None /\ got = None
        /\ chan = <<>>
    BY DEF Init
  <1>2. fails \subseteq ({"A", "B"} \X Ws)
    <2>1. CASE fails = {}
      BY <2>1
    <2>2. CASE fails # {}
      <3>1. PICK x \in {"A", "B"} \X Ws : fails = {x}
        BY <2>2 DEF Init
      <3> QED BY <3>1
    <2> QED BY <2>1, <2>2
  <1>3. None \in [Ws -> 0 .. W] /\ at \in [Ws -> 0 .. Steps + 1]
    BY <1>1 DEF None
  <1>4. \A i \in Ws : ~Ended(i) /\ got[i] = 0
    BY <1>1 DEF Ended, None
  <1>5. chan \in Seq(Ws) /\ Len(chan) = 0
    BY <1>1
  <1>6. TypeOK
    BY <1>1, <1>2, <1>3, <1>5 DEF TypeOK
  <1>7. Proving
    BY <1>1, <1>4 DEF Proving
  <1>8. Verifying
    <2>1. 1 .. Len(chan) = {}
      BY <1>5
    <2> QED BY <1>1, <1>4, <2>1 DEF Verifying
  <1> QED BY <1>6, <1>7, <1>8 DEF Inv

LEMMA Stepping == \A i \in Ws : Inv /\ Step(i) => Inv'
  <1> USE Sizes
  <1> SUFFICES ASSUME NEW i \in Ws, Inv, Step(i) PROVE Inv'
    OBVIOUS
  <1>1. TypeOK'
    BY DEF Inv, TypeOK, Step, Ws
  <1>2. \A j \in Ws : Ended(j)' <=> Ended(j)
    BY DEF Inv, TypeOK, Step, Ended, Ws
  <1>3. Proving'
    BY <1>2 DEF Inv, TypeOK, Proving, Step, Sequential, Ws
  <1>4. Verifying'
    <2>1. \A k \in 1 .. Len(chan) : chan[k] \in Ws
      BY DEF Inv, TypeOK
    <2> QED BY <1>2, <2>1 DEF Inv, TypeOK, Verifying, Step, Sequential
  <1> QED BY <1>1, <1>3, <1>4 DEF Inv

LEMMA Finishing == \A i \in Ws : Inv /\ Finish(i) => Inv'
  <1> USE Sizes
  <1> SUFFICES ASSUME NEW i \in Ws, Inv, Finish(i) PROVE Inv'
    OBVIOUS
  <1>0. i \in 1 .. W /\ at[i] = Steps /\ ~Ended(i) /\ Ended(i)'
    BY DEF Inv, TypeOK, Finish, Ended, Ws
  <1>1. \A j \in Ws : j # i => (Ended(j)' <=> Ended(j))
    BY DEF Inv, TypeOK, Finish, Ended
  <1>2. main \in {"A", "B", "recv"}
    BY <1>0 DEF Inv, TypeOK, Proving, Verifying, Finish, Ws
  <1>3. CASE main = "A"
    <2>1. what = "prove"
      BY <1>3 DEF Inv, TypeOK, Verifying
    <2>2. TypeOK'
      BY <1>0, <1>3 DEF Inv, TypeOK, Finish, Ws
    <2>3. Proving'
      BY <1>0, <1>1, <1>3, <2>1 DEF Inv, TypeOK, Proving, Finish, Ws
    <2>4. Verifying'
      BY <2>1 DEF Finish, Verifying
    <2> QED BY <2>2, <2>3, <2>4 DEF Inv
  <1>4. CASE main = "B"
    <2>1. what = "prove"
      BY <1>4 DEF Inv, TypeOK, Verifying
    <2>2. TypeOK'
      BY <1>0, <1>4 DEF Inv, TypeOK, Finish, Ws
    <2>3. Proving'
      BY <1>0, <1>1, <1>4, <2>1 DEF Inv, TypeOK, Proving, Finish, Ws, Sequential
    <2>4. Verifying'
      BY <2>1 DEF Finish, Verifying
    <2> QED BY <2>2, <2>3, <2>4 DEF Inv
  <1>5. CASE main = "recv"
    <2>1. what = "verify"
      BY <1>5 DEF Inv, TypeOK, Proving
    <2>2. chan' = Append(chan, i) /\ UNCHANGED <<what, main, slotA, slotB, fails, got, digest>>
      BY <1>5 DEF Finish
    <2>3. at' = [at EXCEPT ![i] = Steps + 1]
      BY DEF Finish
    <2>4. TypeOK'
      BY <2>2, <2>3 DEF Inv, TypeOK, Ws
    <2>5. Proving'
      BY <2>1, <2>2 DEF Proving
    <2>6. /\ Len(chan') = Len(chan) + 1
          /\ \A k \in 1 .. Len(chan) : chan'[k] = chan[k] /\ chan[k] \in Ws
          /\ chan'[Len(chan) + 1] = i
      BY <2>2 DEF Inv, TypeOK
    <2>7. Len(chan) \in Nat
      BY DEF Inv, TypeOK
    <2>8. \A k \in 1 .. Len(chan) : chan[k] # i
      BY <1>0, <2>1 DEF Inv, Verifying
    <2>9. got[i] = 0
      BY <1>0, <2>1 DEF Inv, Verifying
    <2>10. \A k \in 1 .. Len(chan') : at'[chan'[k]] = Steps + 1 /\ got'[chan'[k]] = 0
      <3> SUFFICES ASSUME NEW k \in 1 .. Len(chan') PROVE at'[chan'[k]] = Steps + 1 /\ got'[chan'[k]] = 0
        OBVIOUS
      <3>1. CASE k \in 1 .. Len(chan)
        BY <3>1, <1>1, <2>1, <2>2, <2>6, <2>8 DEF Inv, Verifying, Ended
      <3>2. CASE k = Len(chan) + 1
        BY <3>2, <1>0, <2>2, <2>3, <2>6, <2>9 DEF Inv, TypeOK, Ws
      <3> QED BY <3>1, <3>2, <2>6, <2>7
    <2>11. \A k, m \in 1 .. Len(chan') : chan'[k] = chan'[m] => k = m
      BY <2>1, <2>6, <2>7, <2>8 DEF Inv, Verifying
    <2>12. Verifying'
      BY <1>0, <1>1, <1>5, <2>1, <2>2, <2>10, <2>11 DEF Inv, Verifying, Ended
    <2> QED BY <2>4, <2>5, <2>12 DEF Inv
  <1> QED BY <1>2, <1>3, <1>4, <1>5

LEMMA Passing == Inv /\ Barrier => Inv'
  <1> USE Sizes
  <1> SUFFICES ASSUME Inv, Barrier PROVE Inv'
    OBVIOUS
  <1>1. what = "prove"
    BY DEF Inv, TypeOK, Verifying, Barrier
  <1>2. Verifying'
    BY <1>1 DEF Barrier, Verifying
  <1>3. CASE Failed(main)
    <2>1. main' = "error" /\ UNCHANGED <<what, at, slotA, slotB, fails, chan, got, digest>>
      BY <1>3 DEF Barrier
    <2>2. fails # {}
      BY <1>3 DEF Failed
    <2>3. TypeOK'
      BY <2>1 DEF Inv, TypeOK
    <2>4. Proving'
      BY <1>1, <2>1, <2>2 DEF Inv, Proving, Barrier, Ended
    <2> QED BY <1>2, <2>3, <2>4 DEF Inv
  <1>4. CASE ~Failed(main) /\ main = "A"
    <2>1. main' = "B" /\ digest' = slotA /\ at' = [j \in Ws |-> 0] /\ UNCHANGED <<what, slotA, slotB, fails, chan, got>>
      BY <1>4 DEF Barrier
    <2>2. \A j \in Ws : slotA[j] = j /\ <<"A", j>> \notin fails
      BY <1>1, <1>4 DEF Inv, Proving, Barrier, Failed
    <2>3. digest' = Sequential
      BY <2>1, <2>2 DEF Inv, TypeOK, Sequential
    <2>4. TypeOK'
      BY <2>1 DEF Inv, TypeOK
    <2>5. \A j \in Ws : ~Ended(j)'
      BY <2>1 DEF Ended
    <2>6. Proving'
      BY <1>1, <2>1, <2>2, <2>3, <2>5 DEF Inv, Proving, Sequential
    <2> QED BY <1>2, <2>4, <2>6 DEF Inv
  <1>5. CASE ~Failed(main) /\ main = "B"
    <2>1. main' = "ok" /\ UNCHANGED <<what, at, digest, slotA, slotB, fails, chan, got>>
      BY <1>5 DEF Barrier
    <2>2. \A j \in Ws : slotB[j] = j /\ <<"B", j>> \notin fails /\ <<"A", j>> \notin fails /\ Ended(j)
      BY <1>1, <1>5 DEF Inv, Proving, Barrier, Failed
    <2>3. slotB = Sequential
      BY <2>2 DEF Inv, TypeOK, Sequential
    <2>4. fails = {}
      BY <2>2 DEF Inv, TypeOK
    <2>5. TypeOK'
      BY <2>1 DEF Inv, TypeOK
    <2>6. Proving'
      BY <1>1, <1>5, <2>1, <2>2, <2>3, <2>4 DEF Inv, Proving, Ended, Sequential
    <2> QED BY <1>2, <2>5, <2>6 DEF Inv
  <1> QED BY <1>3, <1>4, <1>5 DEF Barrier

LEMMA Receiving == Inv /\ Receive => Inv'
  <1> USE Sizes
  <1> SUFFICES ASSUME Inv, Receive PROVE Inv'
    OBVIOUS
  <1>1. what = "verify"
    BY DEF Inv, TypeOK, Proving, Receive
  <1>2. PICK h \in Ws : h = Head(chan)
    BY DEF Inv, TypeOK, Receive
  <1>3. /\ Len(chan') = Len(chan) - 1 /\ Len(chan) \in Nat /\ Len(chan) > 0
        /\ chan[1] = h
        /\ \A k \in 1 .. Len(chan') : chan'[k] = chan[k + 1]
        /\ chan' \in Seq(Ws)
    BY <1>2 DEF Inv, TypeOK, Receive
  <1>4. got' = [got EXCEPT ![h] = h]
    BY <1>2 DEF Receive
  <1>5. UNCHANGED <<what, main, at, slotA, slotB, fails, digest>>
    BY DEF Receive
  <1>6. TypeOK'
    BY <1>3, <1>4, <1>5 DEF Inv, TypeOK, Ws
  <1>7. Proving'
    BY <1>1, <1>5 DEF Proving
  <1>8. \A k \in 1 .. Len(chan') : chan'[k] # h /\ chan'[k] \in Ws
    BY <1>1, <1>3 DEF Inv, TypeOK, Verifying
  <1>9. \A k \in 1 .. Len(chan') : at'[chan'[k]] = Steps + 1 /\ got'[chan'[k]] = 0
    BY <1>1, <1>3, <1>4, <1>5, <1>8 DEF Inv, TypeOK, Verifying, Ended
  <1>10. \A k, m \in 1 .. Len(chan') : chan'[k] = chan'[m] => k = m
    BY <1>1, <1>3 DEF Inv, Verifying
  <1>11. \A j \in Ws : got'[j] # 0 => got'[j] = j /\ Ended(j)'
    BY <1>1, <1>3, <1>4, <1>5 DEF Inv, TypeOK, Verifying, Ended
  <1>12. main' = "recv"
    BY <1>5 DEF Receive
  <1>13. Verifying'
    BY <1>1, <1>5, <1>9, <1>10, <1>11, <1>12 DEF Inv, Verifying, Ended
  <1> QED BY <1>6, <1>7, <1>13 DEF Inv

LEMMA Returning == Inv /\ Return => Inv'
  <1> USE Sizes
  <1> SUFFICES ASSUME Inv, Return PROVE Inv'
    OBVIOUS
  <1>1. what = "verify"
    BY DEF Inv, TypeOK, Proving, Return
  <1>2. got = Sequential
    BY <1>1 DEF Inv, TypeOK, Verifying, Return, Sequential
  <1>3. TypeOK'
    BY DEF Inv, TypeOK, Return
  <1>4. Proving'
    BY <1>1 DEF Return, Proving
  <1>5. Verifying'
    BY <1>1, <1>2 DEF Inv, Verifying, Return, Ended, Sequential
  <1> QED BY <1>3, <1>4, <1>5 DEF Inv

THEOREM Invariant == Safety => []Inv
  <1>1. Inv /\ [Next]_vars => Inv'
    <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
      OBVIOUS
    <2>1. CASE UNCHANGED vars
      BY <2>1 DEF vars, Inv, TypeOK, Proving, Verifying, Ended, Sequential
    <2>2. CASE Next
      BY <2>2, Stepping, Finishing, Passing, Receiving, Returning DEF Next, Worker
    <2> QED BY <2>1, <2>2
  <1> QED BY <1>1, Start, PTL DEF Safety

THEOREM Safe == Safety => [](Deterministic /\ Quiet /\ NothingLeft)
  <1>1. Inv => Deterministic /\ Quiet /\ NothingLeft
    <2> SUFFICES ASSUME Inv PROVE Deterministic /\ Quiet /\ NothingLeft
      OBVIOUS
    <2>1. Deterministic
      BY DEF Inv, TypeOK, Proving, Verifying, Deterministic
    <2>2. Quiet
      BY DEF Inv, TypeOK, Proving, Verifying, Quiet, Returned
    <2>3. NothingLeft
      <3>1. CASE what = "prove"
        BY <3>1 DEF Inv, Proving, NothingLeft
      <3>2. CASE what = "verify" /\ Returned
        <4>1. \A k \in 1 .. Len(chan) : chan[k] \in Ws /\ got[chan[k]] = 0
          BY <3>2 DEF Inv, TypeOK, Verifying
        <4>2. \A i \in Ws : got[i] # 0
          BY <3>2 DEF Inv, Verifying, Returned
        <4>3. Len(chan) \in Nat
          BY DEF Inv, TypeOK
        <4>4. Len(chan) = 0
          BY <4>1, <4>2, <4>3
        <4> QED BY <4>4 DEF Inv, TypeOK, NothingLeft
      <3> QED BY <3>1, <3>2 DEF Inv, TypeOK, NothingLeft
    <2> QED BY <2>1, <2>2, <2>3
  <1> QED BY <1>1, Invariant, PTL
================================================================================
