-------------------------------- MODULE Sigma --------------------------------
(***************************************************************************)
(* The proof systems of zksigma: for each kind of proof the relation that  *)
(* is proved (Rel), the equations the verifier checks (Eqs), the points    *)
(* that are hashed into the challenge (Parts), and what an honest prover   *)
(* computes from its nonces (Prove).                                       *)
(*                                                                         *)
(*   kind     statement            proof                 witness           *)
(*   gspfs    A                    Base T s c            x                 *)
(*   eq       B1 R1 B2 R2          T1 T2 s c             x                 *)
(*   disj     B1 R1 B2 R2          T1 T2 c c1 c2 s1 s2   x, side           *)
(*   cons     CM CT PK             T1 T2 c s1 s2         v r               *)
(*   abc      CM CT                B C T1 T2 c j k l D   v sk, side        *)
(*   range    CM                   Agg e t[i]=[C,s]      v                 *)
(***************************************************************************)
EXTENDS Group, FiniteSets

Sides == {0, 1}      \* Left, Right

\* ---------------------------------------------------------------- relations
(* For abc the prover is not given the randomness of the commitment; what   *)
(* it can see is sk * CM = CT on the left; the full relation (with the      *)
(* randomness r that only the caller knows) is RelAbcFull.                  *)
Rel(k, c, st, w) ==
  CASE k = "gspfs" -> GMul(c, w.x, w.Base) = st.A
    [] k = "eq"    -> GMul(c, w.x, st.B1) = st.R1 /\ GMul(c, w.x, st.B2) = st.R2
    [] k = "disj"  -> /\ w.side \in Sides
                      /\ IF w.side = 0 THEN GMul(c, w.x, st.B1) = st.R1
                                       ELSE GMul(c, w.x, st.B2) = st.R2
    [] k = "cons"  -> Commit(c, w.v, w.r) = st.CM /\ GMul(c, w.r, st.PK) = st.CT

\* CM = vG + rH and CT = r(sk H)
RelAbcFull(c, st, w) ==
  /\ st.CM = Commit(c, w.v, w.r)
  /\ st.CT = GMul(c, w.r, GMul(c, w.sk, c.H))

\* the prover has to refuse: side and value do not fit, no inverse of the key,
\* or (left) CM is not the r H of the token
AbcRefuse(c, st, w) ==
  \/ w.side \notin Sides
  \/ SEq(c, w.sk, SZero(c))
  \/ w.side = 0 /\ ~SEq(c, w.v, SZero(c))
  \/ w.side = 1 /\ SEq(c, w.v, SZero(c))
  \/ w.side = 0 /\ GMul(c, w.sk, st.CM) # st.CT

\* ---------------------------------------------------------------- transcripts
Parts(k, c, st, pf) ==
  CASE k = "gspfs" -> <<pf.Base, st.A, pf.T>>
    [] k = "eq"    -> <<st.B1, st.R1, st.B2, st.R2, pf.T1, pf.T2>>
    [] k = "disj"  -> <<st.B1, st.R1, st.B2, st.R2, pf.T1, pf.T2>>
    [] k = "cons"  -> <<c.G, c.H, st.CM, st.CT, st.PK, pf.T1, pf.T2>>
    [] k = "abc"   -> <<c.G, c.H, st.CM, st.CT, pf.B, pf.C, pf.T1, pf.T2>>

RECURSIVE HexPoints(_)
HexPoints(ps) == IF ps = <<>> THEN "" ELSE BHex(ps[1][1]) \o BHex(ps[1][2]) \o HexPoints(Tail(ps))

HashBytes(c, h) == BMod(BOfHex(SHA256(h)), c.cv.n)
HashPoints(c, ps) == HashBytes(c, HexPoints(ps))

\* ---------------------------------------------------------------- equations
DisjSt(c, st, pf) == [B1 |-> st.CM, R1 |-> st.CT, B2 |-> c.H, R2 |-> GSub(c, pf.C, c.G)]

EqsDisj(c, st, pf) ==
  << SEq(c, SAdd(c, pf.c1, pf.c2), pf.c),
     GMul(c, pf.s1, st.B1) = GAdd(c, pf.T1, GMul(c, pf.c1, st.R1)),
     GMul(c, pf.s2, st.B2) = GAdd(c, pf.T2, GMul(c, pf.c2, st.R2)) >>

EqsAbcOuter(c, st, pf) ==
  << GAdd(c, GMul(c, pf.c, st.CM), pf.T1)
       = GAdd(c, GMul(c, pf.j, c.G), GMul(c, pf.k, st.CT)),
     GAdd(c, GMul(c, pf.c, pf.C), pf.T2)
       = GAdd(c, GMul(c, pf.j, pf.B), GMul(c, pf.l, c.H)) >>

Eqs(k, c, st, pf) ==
  CASE k = "gspfs" -> << GAdd(c, GMul(c, pf.s, pf.Base), GMul(c, pf.c, st.A)) = pf.T >>
    [] k = "eq"    -> << GMul(c, pf.s, st.B1) = GAdd(c, pf.T1, GMul(c, pf.c, st.R1)),
                         GMul(c, pf.s, st.B2) = GAdd(c, pf.T2, GMul(c, pf.c, st.R2)) >>
    [] k = "disj"  -> EqsDisj(c, st, pf)
    [] k = "cons"  -> << Commit(c, pf.s1, pf.s2) = GAdd(c, pf.T1, GMul(c, pf.c, st.CM)),
                         GMul(c, pf.s2, st.PK) = GAdd(c, pf.T2, GMul(c, pf.c, st.CT)) >>
    [] k = "abc"   -> EqsAbcOuter(c, st, pf) \o EqsDisj(c, DisjSt(c, st, pf), pf.D)

AllTrue(s) == \A i \in DOMAIN s : s[i]

\* ---------------------------------------------------------------- honest prover
(* The commitments (first message) and the responses, from the nonces u and  *)
(* the challenge.  The real prover gets the challenge by hashing Parts.      *)
First(k, c, st, w, u) ==
  CASE k = "gspfs" -> [Base |-> w.Base, T |-> GMul(c, u[1], w.Base)]
    [] k = "eq"    -> [T1 |-> GMul(c, u[1], st.B1), T2 |-> GMul(c, u[1], st.B2)]
    [] k = "disj"  ->
         IF w.side = 0
         THEN [T1 |-> GMul(c, u[1], st.B1), T2 |-> GSub(c, GMul(c, u[2], st.B2), GMul(c, u[3], st.R2))]
         ELSE [T2 |-> GMul(c, u[1], st.B2), T1 |-> GSub(c, GMul(c, u[2], st.B1), GMul(c, u[3], st.R1))]
    [] k = "cons"  -> [T1 |-> Commit(c, u[1], u[2]), T2 |-> GMul(c, u[2], st.PK)]
    [] k = "abc"   ->   \* u = u1 u2 u3 ub uc
         LET B == Commit(c, IF w.side = 0 THEN SZero(c) ELSE SInv(c, w.v), u[4])
         IN [B  |-> B,
             C  |-> Commit(c, IF w.side = 0 THEN SZero(c) ELSE SOne(c), u[5]),
             T1 |-> GAdd(c, GMul(c, u[1], c.G), GMul(c, u[2], st.CT)),
             T2 |-> GAdd(c, GMul(c, u[1], B), GMul(c, u[3], c.H))]

NNonces(k) == CASE k = "gspfs" -> 1 [] k = "eq" -> 1 [] k = "disj" -> 3 [] k = "cons" -> 2 [] k = "abc" -> 5

Answer(k, c, st, w, u, ch) ==
  LET f == First(k, c, st, w, u) IN
  CASE k = "gspfs" -> [Base |-> f.Base, T |-> f.T, c |-> ch, s |-> SSub(c, u[1], SMul(c, ch, w.x))]
    [] k = "eq"    -> [T1 |-> f.T1, T2 |-> f.T2, c |-> ch, s |-> SAdd(c, u[1], SMul(c, ch, w.x))]
    [] k = "disj"  ->
         LET d == SSub(c, ch, u[3])
             s == SAdd(c, u[1], SMul(c, d, w.x))
         IN IF w.side = 0
            THEN [T1 |-> f.T1, T2 |-> f.T2, c |-> ch, c1 |-> d, c2 |-> SRed(c, u[3]), s1 |-> s, s2 |-> SRed(c, u[2])]
            ELSE [T1 |-> f.T1, T2 |-> f.T2, c |-> ch, c1 |-> SRed(c, u[3]), c2 |-> d, s1 |-> SRed(c, u[2]), s2 |-> s]
    [] k = "cons"  -> [T1 |-> f.T1, T2 |-> f.T2, c |-> ch,
                       s1 |-> SAdd(c, u[1], SMul(c, ch, w.v)), s2 |-> SAdd(c, u[2], SMul(c, ch, w.r))]
    [] k = "abc"   -> [B |-> f.B, C |-> f.C, T1 |-> f.T1, T2 |-> f.T2, c |-> ch,
                       j |-> SAdd(c, u[1], SMul(c, ch, w.v)),
                       k |-> SAdd(c, u[2], SMul(c, ch, SInv(c, w.sk))),
                       l |-> SAdd(c, u[3], SMul(c, ch, SSub(c, u[5], SMul(c, w.v, u[4]))))]

\* ---------------------------------------------------------------- verifier
(* An exact verifier: the challenge is the hash of Parts, all equations hold *)
(* and every point is in the group.                                          *)
PfPoints(k, pf) ==
  CASE k = "gspfs" -> <<pf.Base, pf.T>>
    [] k \in {"eq", "disj", "cons"} -> <<pf.T1, pf.T2>>
    [] k = "abc" -> <<pf.B, pf.C, pf.T1, pf.T2, pf.D.T1, pf.D.T2>>
StPoints(k, st) ==
  CASE k = "gspfs" -> <<st.A>>
    [] k \in {"eq", "disj"} -> <<st.B1, st.R1, st.B2, st.R2>>
    [] k = "cons" -> <<st.CM, st.CT, st.PK>>
    [] k = "abc" -> <<st.CM, st.CT>>

ChalOK(k, c, st, pf) ==
  /\ SEq(c, pf.c, HashPoints(c, Parts(k, c, st, pf)))
  /\ k = "abc" => SEq(c, pf.D.c, HashPoints(c, Parts("disj", c, DisjSt(c, st, pf), pf.D)))

PointsOK(k, c, st, pf) ==
  LET ps == PfPoints(k, pf) \o StPoints(k, st) IN \A i \in DOMAIN ps : GIn(c, ps[i])

SpecAccepts(k, c, st, pf) ==
  PointsOK(k, c, st, pf) /\ ChalOK(k, c, st, pf) /\ AllTrue(Eqs(k, c, st, pf))

\* all scalars of the proof are canonical
Scalars(k, pf) ==
  CASE k = "gspfs" -> <<pf.s, pf.c>>
    [] k = "eq"   -> <<pf.s, pf.c>>
    [] k = "disj" -> <<pf.c, pf.c1, pf.c2, pf.s1, pf.s2>>
    [] k = "cons" -> <<pf.c, pf.s1, pf.s2>>
    [] k = "abc"  -> <<pf.c, pf.j, pf.k, pf.l, pf.D.c, pf.D.c1, pf.D.c2, pf.D.s1, pf.D.s2>>
CanonicalPf(k, c, pf) == LET s == Scalars(k, pf) IN \A i \in DOMAIN s : Canonical(c, s[i])

\* ---------------------------------------------------------------- range proofs
RBits == 40
Pow2(i) == BPow("2", BOfInt(i), "100000000000000000000000000000000")  \* 2^i
RangeE(c, pf, i) ==     \* e_i = hash(s_i H - e (C_i - 2^i G))
  HashPoints(c, << GSub(c, GMul(c, pf.t[i].s, c.H),
                        GMul(c, pf.e, GSub(c, pf.t[i].C, GMul(c, Pow2(i - 1), c.G)))) >>)
RangeR(c, pf) == [i \in 1 .. Len(pf.t) |-> GMul(c, RangeE(c, pf, i), pf.t[i].C)]
RangeSum(c, pf) == GSum(c, [i \in 1 .. Len(pf.t) |-> pf.t[i].C])
RangeAccepts(c, st, pf) ==
  /\ Len(pf.t) = RBits
  /\ GIn(c, st.CM) /\ GIn(c, pf.Agg) /\ \A i \in 1 .. Len(pf.t) : GIn(c, pf.t[i].C)
  /\ RangeSum(c, pf) = pf.Agg
  /\ pf.Agg = st.CM
  /\ SEq(c, pf.e, HashPoints(c, RangeR(c, pf)))
=============================================================================
