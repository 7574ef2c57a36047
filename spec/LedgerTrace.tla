----------------------------- MODULE LedgerTrace -----------------------------
(***************************************************************************)
(* Judges recorded histories of a ledger kept with the real code (driver   *)
(* ledger) against Ledger.tla.  C18.  The state is the specification's own *)
(* ledger: what the sums and totals are after every transaction.           *)
(***************************************************************************)
EXTENDS TraceBase, Curves, Ledger
VARIABLES pks,    \* public keys
          sks,
          accs,   \* accs[p]: sequence, accs[p][i + 1] after i transactions
          ents    \* ents[p][i]: entry i
vars == <<l, pks, sks, accs, ents>>

Ps == DOMAIN pks
Now(p) == accs[p][Len(accs[p])]
AccP(c, p, en) == Acc(c, Now(p), Entry(c, pks[p], en.v, en.r), en.v, en.r)

OpenOK(e) == LET c == EC(e) IN \A p \in DOMAIN e.sk : e.pk[p] = Key(c, e.sk[p])

PostOK(e) ==
  LET c == EC(e) IN
  /\ e.res = "ok"
  /\ \A p \in Ps :
      LET en == e.entries[p] a == AccP(c, p, en) IN
      /\ [CM |-> en.CM, CT |-> en.CT] = Entry(c, pks[p], en.v, en.r)
      /\ SumsCommit(c, pks[p], a)
      /\ e.sums[p].CM = a.CM /\ e.sums[p].CT = a.CT
      /\ e.sums[p].opens = 1                          \* to the sum of the amounts
      /\ en.cons = "proof" /\ en.ver = "accept"       \* its consistency proof

AuditOK(e) ==      \* a claim t for the total of p, and the verdict for another claim
  LET c == EC(e) a == Now(e.p) can == CanAudit(c, sks[e.p], a, e.t) IN
  /\ can = SEq(c, e.t, a.v)
  /\ IF can THEN e.res = "proof" /\ e.ver = "accept" ELSE e.res = "error" /\ e.ver = "none"
  /\ e.ver2 \in {"none", "reject"}

ForgeOK(e) ==      \* a proof made by somebody who does not care whether it is true
  LET c == EC(e) IN e.ver = (IF CanAudit(c, sks[e.p], Now(e.p), e.t) THEN "accept" ELSE "reject")

AgainOK(e) ==      \* an audit proof made after e.at transactions, against the sums of now
  LET then == accs[e.p][e.at + 1] now == Now(e.p) IN
  e.ver = (IF then.CM = now.CM /\ then.CT = now.CT THEN "accept" ELSE "reject")

DifferOK(e) ==     \* the totals after i and after j transactions; e.lie: with made-up totals
  LET c == EC(e)
      a == accs[e.p][e.i + 1]
      b == accs[e.p][e.j + 1]
      can == CanDiffer(c, sks[e.p], a, b)
  IN /\ can = ~SEq(c, a.v, b.v)
     /\ IF e.lie = 1 THEN e.ver # "accept"
        ELSE IF can THEN e.res = "proof" /\ e.ver = "accept" ELSE e.res = "error"

EntryOK(e) ==      \* the consistency proof of (p, i) for the entry (p2, j)
  LET same == pks[e.p] = pks[e.p2] /\ ents[e.p][e.i] = ents[e.p2][e.j]
  IN e.ver = (IF same THEN "accept" ELSE "reject")

Allowed(e) ==
  CASE e.op = "open" -> OpenOK(e)
    [] e.op = "post" -> PostOK(e)
    [] e.op = "audit" -> AuditOK(e)
    [] e.op = "forge" -> ForgeOK(e)
    [] e.op = "again" -> AgainOK(e)
    [] e.op = "differ" -> DifferOK(e)
    [] e.op = "entry" -> EntryOK(e)
    [] OTHER -> FALSE

Init == l = 1 /\ pks = << >> /\ sks = << >> /\ accs = << >> /\ ents = << >>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ IF Allowed(e) THEN TRUE ELSE Reject(e, "LedgerTrace " \o e.op)
           /\ CASE e.op = "open" -> /\ pks' = e.pk /\ sks' = e.sk
                                    /\ accs' = [p \in DOMAIN e.pk |-> <<Acc0(EC(e))>>]
                                    /\ ents' = [p \in DOMAIN e.pk |-> << >>]
                [] e.op = "post" /\ e.res = "ok" ->
                     /\ accs' = [p \in Ps |-> Append(accs[p], AccP(EC(e), p, e.entries[p]))]
                     /\ ents' = [p \in Ps |-> Append(ents[p], Entry(EC(e), pks[p], e.entries[p].v, e.entries[p].r))]
                     /\ UNCHANGED <<pks, sks>>
                [] OTHER -> UNCHANGED <<pks, sks, accs, ents>>
Spec == Init /\ [][Next]_vars
===============================================================================
