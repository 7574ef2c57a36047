------------------------------ MODULE NonceTrace ------------------------------
(***************************************************************************)
(* Freshness of nonces.  An event of the driver `nonce' is an honest proof *)
(* with its witness; Nonces.tla extracts the random scalars behind it, and *)
(* all are compared as points u H.  The state remembers every nonce of the *)
(* trace: none may ever come again, in whatever role, and (for scalars)    *)
(* every bit position takes both values.                                   *)
(* On the curve `glass' all nonces are seen as scalars; where there are    *)
(* hundreds in a role, the multiples of n/16 and the four lowest bits have *)
(* to divide them evenly (false alarms: less than one in 10^5 runs).  *)
(* Events `stream' compare calls that were given the same and different    *)
(* entropy.                                                                *)
(***************************************************************************)
EXTENDS TraceBase, Nonces

VARIABLES seen,    \* points u H of all nonces so far
          no1, no0,    \* per slot: the bits that never were 1, never were 0
          tops, lows   \* per slot: how many nonces in each sixteenth, with each low nibble

AsPoints(c, ss) == [i \in DOMAIN ss |-> GMul(c, ss[i], c.H)]
NoDup(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)

Points(e) ==
  LET c == EC(e) IN
  IF e.op = "draw" THEN << GMul(c, e.x, c.H) >>
  ELSE AsPoints(c, Scal(c, e.k, e.w, e.pf)) \o PointNonces(c, e.k, e.w, e.pf)

Slots(e) == IF e.op = "draw" THEN << << e.x >> >> ELSE NonceSlots(EC(e), e.k, e.w, e.pf, e.cv = "glass")

\* (histories on glass are for their distribution only)
FreshOK(e) ==
  e.cv = "glass" \/
  LET ps == Points(e) IN
  /\ NoDup(ps)
  /\ \A i \in DOMAIN ps : ps[i] \notin seen /\ ps[i] # Inf
  /\ e.op = "draw" => Canonical(EC(e), e.x)

Allowed(e) ==
  CASE e.op \in {"nonce", "draw"} -> e.res = "proof" /\ FreshOK(e)
    [] e.op = "start" -> TRUE
    [] e.op = "end" -> /\ \/ e.n < 64
                          \/ \A i \in DOMAIN no1 : no1[i] = {} /\ no0[i] = {}
                       /\ \A i \in DOMAIN tops : EvenOK(tops[i]) /\ EvenOK(lows[i])
    [] e.op = "stream" -> /\ \A i \in DOMAIN e.res : e.res[i] = "proof"
                          /\ e.same = 1 /\ e.other = 1
                          /\ e.bytes >= e.need
    [] OTHER -> FALSE

AllBits(e) == 0 .. BBitLen(CurveTable[e.cv].n) - 1
Upd(e, s, f, v) ==
  [i \in DOMAIN s |-> {b \in IF i \in DOMAIN f THEN f[i] ELSE AllBits(e) : \A j \in DOMAIN s[i] : BBit(s[i][j], b) # v}]
HistOf(e, s, h, C(_, _)) == HistAdd(CurveTable[e.cv].n, s, h, C)

Has1(e) == e.op \in {"nonce", "draw"} /\ e.res = "proof"

Init == l = 1 /\ seen = {} /\ no1 = << >> /\ no0 = << >> /\ tops = << >> /\ lows = << >>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ IF Allowed(e) THEN TRUE ELSE Reject(e, "NonceTrace")
           /\ IF Has1(e)
              THEN LET ps == IF e.cv = "glass" THEN << >> ELSE Points(e)
                       s == Slots(e) IN
                   /\ seen' = seen \cup {ps[i] : i \in DOMAIN ps}
                   /\ no1' = Upd(e, s, no1, 1)
                   /\ no0' = Upd(e, s, no0, 0)
                   /\ tops' = HistOf(e, s, tops, Top)
                   /\ lows' = HistOf(e, s, lows, Low)
              ELSE IF e.op = "start" THEN /\ seen' = seen /\ no1' = << >> /\ no0' = << >>
                                          /\ tops' = << >> /\ lows' = << >>
              ELSE UNCHANGED <<seen, no1, no0, tops, lows>>
Spec == Init /\ [][Next]_<<l, seen, no1, no0, tops, lows>>
===============================================================================
