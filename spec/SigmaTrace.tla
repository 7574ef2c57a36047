------------------------------ MODULE SigmaTrace ------------------------------
(***************************************************************************)
(* Judges recorded proving and verifying (drivers prove, bulk, toyprove,   *)
(* forge, toyver) against Sigma.tla.  MODE selects what is judged:         *)
(*   complete  true statements are proved and the proof is accepted (C01)  *)
(*   refuse    false statements are refused (C02)                          *)
(*   sound     verdict = SpecAccepts (C03)                                 *)
(*   bind      challenges are the hash of all the parts (C04)              *)
(*   canon     scalars of honest proofs are canonical (C05)                *)
(*   decoded   among other events, what was decoded and accepted satisfies *)
(*             the equations (C09)                                         *)
(*   range     range proofs: exactly [0, 2^40), and they open (C07)        *)
(***************************************************************************)
EXTENDS TraceBase, Curves

Mode == IOEnv.MODE

\* ---------------------------------------------------------------- prover
\* what the prover was asked is true, including what only the caller knows
TrueInstance(k, c, st, w) ==
  CASE k \in {"gspfs", "eq", "disj", "cons"} -> Rel(k, c, st, w)
    [] k = "abc"  -> ~AbcRefuse(c, st, w) /\ RelAbcFull(c, st, w)
    [] k = "ineq" -> /\ ~SEq(c, w.a, w.b) /\ ~SEq(c, w.sk, SZero(c))
                     /\ st.A = Commit(c, w.a, w.ra) /\ st.B = Commit(c, w.b, w.rb)
                     /\ st.TA = GMul(c, w.ra, GMul(c, w.sk, c.H))
                     /\ st.TB = GMul(c, w.rb, GMul(c, w.sk, c.H))
    [] k = "range" -> BLe("0", w.v) /\ BLt(w.v, Pow2(RBits))

\* the prover has enough information to see that it is false
VisiblyFalse(k, c, st, w) ==
  CASE k \in {"gspfs", "eq", "disj", "cons"} -> ~Rel(k, c, st, w)
    [] k = "abc"  -> AbcRefuse(c, st, w)
    [] k = "ineq" -> SEq(c, w.a, w.b) \/ SEq(c, w.sk, SZero(c))
    [] k = "range" -> ~TrueInstance(k, c, st, w)

Refused(e) == e.res \in {"error", "proof-with-error"} /\ e.ver # "accept"
Proved(e)  == e.res = "proof" /\ e.ver = "accept"

VKind(k) == IF k = "ineq" THEN "abc" ELSE k

ProveOK(e) ==
  LET c == EC(e) IN
  CASE Mode = "complete" -> TrueInstance(e.k, c, e.st, e.w) => Proved(e)
    [] Mode = "refuse"   -> /\ VisiblyFalse(e.k, c, e.st, e.w) => Refused(e)
                            /\ TrueInstance(e.k, c, e.st, e.w) => e.res = "proof"
                            /\ e.res \in {"proof", "error", "proof-with-error"}
    [] Mode = "sound"    -> e.full = 1 /\ e.k # "range" =>
                              (e.ver = "accept") = SpecAccepts(VKind(e.k), c, e.vst, e.pf)
    [] Mode = "bind"     -> e.full = 1 /\ e.k # "range" => ChalOK(VKind(e.k), c, e.vst, e.pf)
    [] Mode = "canon"    -> e.full = 1 =>
                              IF e.k = "range"
                              THEN Canonical(c, e.pf.e) /\ \A i \in DOMAIN e.pf.t : Canonical(c, e.pf.t[i].s)
                              ELSE CanonicalPf(VKind(e.k), c, e.pf)
    [] Mode = "range"    -> IF TrueInstance(e.k, c, e.st, e.w)
                            THEN /\ Proved(e) /\ e.full = 1
                                 /\ e.pf.Agg = Commit(c, e.w.v, e.rand)
                                 /\ RangeAccepts(c, [CM |-> e.pf.Agg], e.pf)
                            ELSE Refused(e)
    [] OTHER -> TRUE

\* ---------------------------------------------------------------- toy groups
ToySt(k, s) ==
  CASE k = "gspfs" -> [A |-> s[1]]
    [] k \in {"eq", "disj"} -> [B1 |-> s[1], R1 |-> s[2], B2 |-> s[3], R2 |-> s[4]]
    [] k = "cons" -> [CM |-> s[1], CT |-> s[2], PK |-> s[3]]
    [] k = "abc" -> [CM |-> s[1], CT |-> s[2]]
ToyW(k, w) ==
  CASE k = "gspfs" -> [Base |-> w[1], x |-> w[2]]
    [] k = "eq" -> [x |-> w[1]]
    [] k = "disj" -> [x |-> w[1], side |-> w[2]]
    [] k = "cons" -> [v |-> w[1], r |-> w[2]]
    [] k = "abc" -> [v |-> w[1], sk |-> w[2], side |-> w[3]]

(* all runs of one prover call, over every outcome of its random draws *)
ToyTrue(k, c, st, w) ==
  IF k = "abc"
  THEN ~AbcRefuse(c, st, w) /\ \E r \in 0 .. c.q - 1 : RelAbcFull(c, st, [v |-> w.v, sk |-> w.sk, r |-> r])
  ELSE Rel(k, c, st, w)

ToyAllOK(e) ==
  LET c == ZQ(e)
      st == ToySt(e.k, e.st)
      w == ToyW(e.k, e.w)
  IN CASE Mode = "complete" -> ToyTrue(e.k, c, st, w) => e.acc = e.runs
       [] Mode = "refuse" -> /\ VisiblyFalse(e.k, c, st, w) => e.err = e.runs
                             /\ ToyTrue(e.k, c, st, w) => e.err = 0
       [] OTHER -> TRUE

\* ---------------------------------------------------------------- verifier
(* e.exact = 1: all scalars of the proof are canonical, the verdict is      *)
(* determined.  Otherwise acceptance is allowed but not required when the   *)
(* equations hold modulo the order.                                         *)
HasNil(x) == x = "nil"
PtNil(p) == p[1] = "nil" \/ p[2] = "nil"

AnyNil(k, st, pf) ==
  LET ps == IF k = "range" THEN <<pf.Agg, st.CM>> \o [i \in 1 .. Len(pf.t) |-> pf.t[i].C]
            ELSE PfPoints(k, pf) \o StPoints(k, st)
      ss == IF k = "range" THEN <<pf.e>> \o [i \in 1 .. Len(pf.t) |-> pf.t[i].s] ELSE Scalars(k, pf)
  IN (\E i \in DOMAIN ps : PtNil(ps[i])) \/ (\E i \in DOMAIN ss : HasNil(ss[i]))

VerifyOK(e) ==
  LET c == EC(e)
      k == VKind(e.k)
      good == IF AnyNil(k, e.st, e.pf) THEN FALSE
              ELSE IF k = "range" THEN RangeAccepts(c, e.st, e.pf)
              ELSE SpecAccepts(k, c, e.st, e.pf)
  IN /\ e.ver \in {"accept", "reject", "undecodable"}
     /\ e.ver = "accept" => good
     /\ good /\ e.exact = 1 => e.ver = "accept"

\* ---------------------------------------------------------------- all scalars
(* For one transcript (statement and random commitments) over a toy curve,   *)
(* e.acc lists every assignment of the scalars that the verifier accepted.   *)
TvSt(k, v) ==
  CASE k = "gspfs" -> [A |-> v[1]]
    [] k \in {"eq", "disj"} -> [B1 |-> v[1], R1 |-> v[2], B2 |-> v[3], R2 |-> v[4]]
    [] k = "cons" -> [CM |-> v[1], CT |-> v[2], PK |-> v[3]]
    [] k = "abc" -> [CM |-> v[1], CT |-> v[2]]
TvNS(k) == CASE k \in {"gspfs", "eq"} -> 2 [] k = "disj" -> 5 [] k = "cons" -> 3 [] k = "abc" -> 4
TvPf(k, v, s) ==
  CASE k = "gspfs" -> [Base |-> v[2], T |-> v[3], s |-> s[1], c |-> s[2]]
    [] k = "eq" -> [T1 |-> v[5], T2 |-> v[6], c |-> s[1], s |-> s[2]]
    [] k = "disj" -> [T1 |-> v[5], T2 |-> v[6], c |-> s[1], c1 |-> s[2], c2 |-> s[3], s1 |-> s[4], s2 |-> s[5]]
    [] k = "cons" -> [T1 |-> v[4], T2 |-> v[5], c |-> s[1], s1 |-> s[2], s2 |-> s[3]]
    [] k = "abc" -> [B |-> v[3], C |-> v[4], T1 |-> v[5], T2 |-> v[6], c |-> s[1], j |-> s[2], k |-> s[3], l |-> s[4]]

ToyVerOK(e) ==
  LET ec == EC(e)
      zq == ZQ(e)
      k == e.k
      ns == TvNS(k)
      none == [i \in 1 .. ns |-> 0]
      ch == BToInt(HashPoints(ec, Parts(k, ec, TvSt(k, e.pts), TvPf(k, e.pts, none))))
      st == TvSt(k, e.v)
      holds(s) == LET pf == TvPf(k, e.v, s)
                  IN pf.c = ch /\ AllTrue(IF k = "abc" THEN EqsAbcOuter(zq, st, pf) ELSE Eqs(k, zq, st, pf))
      acc == {e.acc[i] : i \in DOMAIN e.acc}
  IN /\ e.odd = ""
     /\ \A i \in DOMAIN e.v : GMul(ec, BOfInt(e.v[i]), <<ec.cv.gx, ec.cv.gy>>) = e.pts[i]
     /\ acc = {s \in [1 .. ns -> 0 .. zq.q - 1] : holds(s)}

\* ---------------------------------------------------------------- schedules
(* One range proof made or verified under a forced schedule (see            *)
(* RangePar.tla).  e.hist is the history of the curve operations, by worker;*)
(* 0 is the return of the call: nothing may follow it (RangePar!Quiet).     *)
(* The proof or verdict itself is recorded as an ordinary event.            *)
ParOK(e) ==
  /\ e.res = (IF e.fail = 1 THEN "error" ELSE "done")
  /\ e.leak = 0
  /\ Len(e.hist) > 0 /\ e.hist[Len(e.hist)] = 0
  /\ \A i \in 1 .. Len(e.hist) - 1 : e.hist[i] # 0

RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN "" ELSE s[1] \o Concat(Tail(s))

Allowed(e) ==
  CASE Mode = "decoded" -> e.op = "verify" => VerifyOK(e)
    [] e.op = "prove"  -> ProveOK(e)
    [] e.op = "bulk"   -> e.acc = e.n
    [] e.op = "toyall" -> ToyAllOK(e)
    [] e.op = "verify" -> VerifyOK(e)
    [] e.op = "toyver" -> ToyVerOK(e)
    [] e.op = "challenge" -> e.res = "ok" /\ e.c = HashBytes(EC(e), Concat(e.in))
    [] e.op = "par" -> ParOK(e)
    [] e.op = "absent" -> e.ver = "reject"
    [] OTHER -> FALSE      \* crash, hang

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ IF Allowed(Trace[l]) THEN TRUE ELSE Reject(Trace[l], "SigmaTrace " \o Mode)
Spec == Init /\ [][Next]_l
===============================================================================
