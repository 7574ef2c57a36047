-------------------------------- MODULE ZkTrace --------------------------------
(***************************************************************************)
(* Zero knowledge, exactly, over toy groups (driver toyzk): an event has   *)
(* the distribution of the proofs of one true statement over all outcomes  *)
(* of the prover's random draws.  It must be uniform over the accepting    *)
(* proofs of the statement, a set that does not mention the witness or the *)
(* side.  (abc: the set is a product of its outer and inner parts; the     *)
(* outer parts are listed and the number of inner ones is computed.)       *)
(* And approximately at full size, on the curve whose logarithms are       *)
(* visible (driver zkfull): an event is a proof of the same statement with *)
(* the same witness as the one before; every field of the proof, and the   *)
(* sum and difference of every two, is uniform over the history, whatever  *)
(* the witness and the side.                                               *)
(***************************************************************************)
EXTENDS TraceBase, Nonces

VARIABLES tops, lows   \* histograms of the fields, see Even.tla

Mode == IOEnv.MODE
Pt(ec, k) == GMul(ec, BOfInt(k), <<ec.cv.gx, ec.cv.gy>>)
Zn(q) == 0 .. q - 1

\* hash of a transcript of discrete logarithms
HashZ(ec, zs) == BToInt(HashPoints(ec, [i \in DOMAIN zs |-> Pt(ec, zs[i])]))

\* the accepting proofs of a statement of discrete logarithms, as tuples in the
\* order of the driver: points, then scalars
AccGspfs(z, ec, v) ==
  { t \in { << b, GAdd(z, GMul(z, s, b), GMul(z, c, v[1])), s, c >> : b \in Zn(z.q), s \in Zn(z.q), c \in Zn(z.q) } :
      t[4] = HashZ(ec, <<t[1], v[1], t[2]>>) }
AccEq(z, ec, v) ==
  { t \in { << GSub(z, GMul(z, s, v[1]), GMul(z, c, v[2])), GSub(z, GMul(z, s, v[3]), GMul(z, c, v[4])), c, s >> :
            s \in Zn(z.q), c \in Zn(z.q) } :
      t[3] = HashZ(ec, <<v[1], v[2], v[3], v[4], t[1], t[2]>>) }
AccDisj(z, ec, v) ==
  { t \in { << GSub(z, GMul(z, s1, v[1]), GMul(z, c1, v[2])), GSub(z, GMul(z, s2, v[3]), GMul(z, c2, v[4])),
               (c1 + c2) % z.q, c1, c2, s1, s2 >> : s1 \in Zn(z.q), c1 \in Zn(z.q), s2 \in Zn(z.q), c2 \in Zn(z.q) } :
      t[3] = HashZ(ec, <<v[1], v[2], v[3], v[4], t[1], t[2]>>) }
AccCons(z, ec, v) ==
  { t \in { << GSub(z, Commit(z, s1, s2), GMul(z, c, v[1])), GSub(z, GMul(z, s2, v[3]), GMul(z, c, v[2])), c, s1, s2 >> :
            s1 \in Zn(z.q), s2 \in Zn(z.q), c \in Zn(z.q) } :
      t[3] = HashZ(ec, <<z.G, z.H, v[1], v[2], v[3], t[1], t[2]>>) }
AccAbcOuter(z, ec, v) ==
  { t \in { << B, C, GSub(z, GAdd(z, GMul(z, j, z.G), GMul(z, k, v[2])), GMul(z, c, v[1])),
               GSub(z, GAdd(z, GMul(z, j, B), GMul(z, m, z.H)), GMul(z, c, C)), c, j, k, m >> :
            B \in Zn(z.q), C \in Zn(z.q), c \in Zn(z.q), j \in Zn(z.q), k \in Zn(z.q), m \in Zn(z.q) } :
      t[5] = HashZ(ec, <<z.G, z.H, v[1], v[2], t[1], t[2], t[3], t[4]>>) }
NInner(z, ec, v, C) == Cardinality(AccDisj(z, ec, <<v[1], v[2], z.H, GSub(z, C, z.G)>>))

RECURSIVE SumInner(_, _, _, _)
SumInner(z, ec, v, Cs) ==
  IF Cs = {} THEN 0
  ELSE LET p == CHOOSE p \in Cs : TRUE IN p[2] * NInner(z, ec, v, p[1]) + SumInner(z, ec, v, Cs \ {p})

ToyZkOK(e) ==
  LET ec == EC(e)
      z  == ZQ(e)
      v  == e.st
      acc == CASE e.k = "gspfs" -> {t \in AccGspfs(z, ec, v) : t[1] = e.w[1]}
               [] e.k = "eq" -> AccEq(z, ec, v)
               [] e.k = "disj" -> AccDisj(z, ec, v)
               [] e.k = "cons" -> AccCons(z, ec, v)
               [] e.k = "abc" -> AccAbcOuter(z, ec, v)
      got == {e.list[i] : i \in DOMAIN e.list}
      size == IF e.k = "abc"
              THEN SumInner(z, ec, v, {<<C, Cardinality({t \in acc : t[2] = C})>> : C \in Zn(z.q)})
              ELSE Cardinality(acc)
  IN /\ e.bad = 0
     /\ got \subseteq acc
     /\ e.complete = 1 => /\ got = acc
                          /\ e.min = e.max
                          /\ e.distinct = size

\* ---------------------------------------------------------------- full size
DisjFields(p) == << Lg(p.T1), Lg(p.T2), p.c, p.c1, p.c2, p.s1, p.s2 >>
Fields(k, p) ==
  CASE k = "gspfs" -> << Lg(p.T), p.s, p.c >>
    [] k = "eq"    -> << Lg(p.T1), Lg(p.T2), p.c, p.s >>
    [] k = "disj"  -> DisjFields(p)
    [] k = "cons"  -> << Lg(p.T1), Lg(p.T2), p.c, p.s1, p.s2 >>
    [] k = "abc"   -> << Lg(p.B), Lg(p.C), Lg(p.T1), Lg(p.T2), Lg(p.CToken), p.c, p.j, p.k, p.l >> \o DisjFields(p.D)

\* every field, and sums and differences of two
Pairs(c, f) ==
  [i \in DOMAIN f |-> << f[i] >>]
  \o [i \in 1 .. Len(f) * Len(f) |->
       LET a == ((i - 1) \div Len(f)) + 1  b == ((i - 1) % Len(f)) + 1
       IN IF a < b THEN << SAdd(c, f[a], f[b]) >> ELSE IF b < a THEN << SSub(c, f[a], f[b]) >> ELSE << f[a] >>]

\* a range proof has many fields of each sort; apart for the bits that are 0 and 1
RangePool(c, w, p, bit) ==
  LET ii == {i \in DOMAIN p.t : BBit(w.v, i - 1) = bit}
      RECURSIVE Sq(_)
      Sq(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN << m >> \o Sq(S \ {m})
      o == Sq(ii)
      C(i) == Lg(p.t[i].C)
      At(F(_)) == [j \in DOMAIN o |-> F(o[j])]
      Csum(i) == SAdd(c, C(i), p.t[i].s)
      Cdif(i) == SSub(c, C(i), p.t[i].s)
      nx(i) == IF i = Len(p.t) THEN 1 ELSE i + 1
      Cn(i) == SSub(c, C(i), C(nx(i)))
      Sn(i) == SSub(c, p.t[i].s, p.t[nx(i)].s)
      S(i) == p.t[i].s
      Se(i) == SSub(c, p.t[i].s, p.e)
  IN << At(C), At(S), At(Csum), At(Cdif), At(Cn), At(Sn), At(Se) >>

\* what a proof shows to somebody who guesses the witness counts as well
Slots(e) ==
  LET c == EC(e) IN
  NonceSlots(c, e.k, e.w, e.pf, TRUE)
  \o IF e.k = "range" THEN << << e.pf.e >> >> \o RangePool(c, e.w, e.pf, 0) \o RangePool(c, e.w, e.pf, 1)
     ELSE Pairs(c, Fields(e.k, e.pf))

FullOK(e) == e.res = "proof" /\ (e.k # "range" => CanonicalPf(e.k, EC(e), e.pf))

Allowed(e) ==
  CASE e.op = "toyzk" -> ToyZkOK(e)
    [] e.op = "zkfull" -> FullOK(e)
    [] e.op = "zkstart" -> TRUE
    [] e.op = "zkend" -> \A i \in DOMAIN tops : EvenOK(tops[i]) /\ EvenOK(lows[i])
    [] OTHER -> FALSE

Init == l = 1 /\ tops = << >> /\ lows = << >>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ IF Allowed(e) THEN TRUE ELSE Reject(e, "ZkTrace")
           /\ IF e.op = "zkfull" /\ e.res = "proof"
              THEN LET s == Slots(e) IN
                   /\ tops' = HistAdd(CurveTable[e.cv].n, s, tops, Top)
                   /\ lows' = HistAdd(CurveTable[e.cv].n, s, lows, Low)
              ELSE IF e.op = "zkstart" THEN tops' = << >> /\ lows' = << >>
              ELSE UNCHANGED <<tops, lows>>
Spec == Init /\ [][Next]_<<l, tops, lows>>
===============================================================================
