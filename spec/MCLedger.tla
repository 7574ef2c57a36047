------------------------------- MODULE MCLedger -------------------------------
(***************************************************************************)
(* All histories of a small ledger over Z_q.  With Record (LedgerSim.cfg,  *)
(* simulation) the module generates histories of posts, audits, comparisons *)
(* and checks of entries as codes that harness/d_ledger.go turns into      *)
(* amounts and replays on the real code.                                   *)
(***************************************************************************)
EXTENDS Ledger, TLC, Json
CONSTANTS Q, GG, HH, P, Rows, Record, Len0
c == [kind |-> "zq", q |-> Q, G |-> GG, H |-> HH]
Zq == 0 .. Q - 1
Ps == 1 .. P
VARIABLES sk, acc, rows, hist, old   \* old: what was known before the last transaction
vars == <<sk, acc, rows, hist, old>>

Init == /\ sk \in (IF Record THEN {[p \in Ps |-> 1]} ELSE [Ps -> 1 .. Q - 1])
        /\ acc = [p \in Ps |-> Acc0(c)] /\ old = acc /\ rows = 0 /\ hist = <<>>
Log(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
Post == /\ rows < Rows
        /\ \E v \in (IF Record THEN {[p \in Ps |-> (x + p * y) % Q] : x, y \in Zq} ELSE [Ps -> Zq]), r \in (IF Record THEN {[p \in Ps |-> 1]} ELSE [Ps -> Zq]) :
             /\ acc' = [p \in Ps |-> Acc(c, acc[p], Entry(c, Key(c, sk[p]), v[p], r[p]), v[p], r[p])]
             /\ Log([do |-> "post", a |-> v])
        /\ old' = acc
        /\ rows' = rows + 1 /\ UNCHANGED sk
Ask == /\ Record /\ rows > 0
       /\ \E p \in Ps, d \in Zq :
            \/ Log([do |-> "audit", p |-> p, d |-> d])
            \/ \E i \in 0 .. rows : Log([do |-> "differ", p |-> p, i |-> i, j |-> rows, d |-> d % 4])
            \/ \E i \in 1 .. rows : Log([do |-> "entry", p |-> p, i |-> i, p2 |-> 1 + ((p + d) % P), j |-> 1 + (d % rows)])
            \/ Log([do |-> "again", p |-> p])
            \/ Log([do |-> "forge", p |-> p, d |-> d])
       /\ UNCHANGED <<sk, acc, rows, old>>
Enough == Record /\ rows = Rows /\ Len(hist) >= Len0
Ended == hist # <<>> /\ hist[Len(hist)].do = "end"
End == /\ Enough /\ ~Ended
       /\ hist' = Append(hist, [do |-> "end"])
       /\ UNCHANGED <<sk, acc, rows, old>>
Next == IF Enough THEN End ELSE Post \/ (Len(hist) < Len0 - (Rows - rows) /\ Ask)
Spec == Init /\ [][Next]_vars

Sums == \A p \in Ps : SumsCommit(c, Key(c, sk[p]), acc[p])
\* exactly the true total can be proved, and with no other key either
Audits == \A p \in Ps : \A t \in Zq :
            /\ CanAudit(c, sk[p], acc[p], t) <=> t = acc[p].v
            /\ (\E x \in Zq : Rel("eq", c, AuditSt(c, Key(c, sk[p]), acc[p], t), [x |-> x])) <=> t = acc[p].v
Differs == \A p \in Ps : CanDiffer(c, sk[p], acc[p], old[p]) <=> acc[p].v # old[p].v
Emit == Ended => PrintT("BEHAVIOUR " \o ToJson([hist |-> hist]))
===============================================================================
