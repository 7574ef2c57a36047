-------------------------------- MODULE Ledger --------------------------------
(***************************************************************************)
(* The use the library is made for: a ledger.  Every transaction posts for *)
(* every participant p a commitment CM = vG + rH to an amount and a token  *)
(* CT = r PK_p, where PK_p = sk_p H.  Sums of commitments and tokens are   *)
(* kept.  A participant proves a claimed total t by an equality proof of   *)
(*      CMsum - tG  to CTsum   and   H to PK    (both times sk),           *)
(* and two totals different by an inequality proof.                        *)
(* Written over Group.tla: model-checked over Z_q (MCLedger), and used on  *)
(* the real curves to judge recorded histories (LedgerTrace).              *)
(***************************************************************************)
EXTENDS Sigma

Key(c, sk) == GMul(c, sk, c.H)
Entry(c, pk, v, r) == [CM |-> Commit(c, v, r), CT |-> GMul(c, r, pk)]
Acc0(c) == [CM |-> GZero(c), CT |-> GZero(c), v |-> SZero(c), r |-> SZero(c)]
\* what is known of a participant after one more entry
Acc(c, a, en, v, r) == [CM |-> GAdd(c, a.CM, en.CM), CT |-> GAdd(c, a.CT, en.CT),
                        v |-> SAdd(c, a.v, v), r |-> SAdd(c, a.r, r)]
SumsCommit(c, pk, a) == a.CM = Commit(c, a.v, a.r) /\ a.CT = GMul(c, a.r, pk)

AuditSt(c, pk, a, t) == [B1 |-> GSub(c, a.CM, GMul(c, t, c.G)), R1 |-> a.CT, B2 |-> c.H, R2 |-> pk]
CanAudit(c, sk, a, t) == Rel("eq", c, AuditSt(c, Key(c, sk), a, t), [x |-> sk])

DiffSt(c, a, b) == [CM |-> GSub(c, a.CM, b.CM), CT |-> GSub(c, a.CT, b.CT)]
DiffW(c, sk, a, b) == [v |-> SSub(c, a.v, b.v), sk |-> sk, r |-> SSub(c, a.r, b.r), side |-> 1]
CanDiffer(c, sk, a, b) == /\ ~AbcRefuse(c, DiffSt(c, a, b), DiffW(c, sk, a, b))
                          /\ RelAbcFull(c, DiffSt(c, a, b), DiffW(c, sk, a, b))
===============================================================================
