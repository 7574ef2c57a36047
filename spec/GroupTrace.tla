------------------------------ MODULE GroupTrace ------------------------------
(***************************************************************************)
(* Judges recorded point arithmetic, commitments, tokens, parameters and   *)
(* secp256k1 arithmetic (drivers group, commit, params, koblitz) against   *)
(* Curve.tla and Group.tla.  C11, C12, C13, C19.                           *)
(***************************************************************************)
EXTENDS TraceBase, Curves

\* ---------------------------------------------------------------- C12
LawOK(e) ==
  LET c == EC(e) IN
  /\ e.res = "ok"
  /\ CASE e.f = "mult" -> e.r = GMul(c, e.s, e.p)
       [] e.f = "add"  -> e.r = GAdd(c, e.p, e.q)
       [] e.f = "sub"  -> e.r = GSub(c, e.p, e.q)
       [] e.f = "neg"  -> e.r = GNeg(c, e.p)
       [] e.f = "equal" -> (e.eq = 1) = (e.p = e.q)
       [] e.f = "keygen" -> /\ e.r = GMul(c, e.s, e.p)
                            /\ BLe("0", e.s) /\ BLt(e.s, c.cv.n)

(* All sums, differences, negations and multiples on a toy curve, as       *)
(* discrete logarithms: e.add[i+1][j+1] is the sum of iB and jB, ...       *)
ToyLawOK(e) ==
  LET q == e.q IN
  /\ e.odd = ""
  /\ \A i, j \in 0 .. q - 1 : /\ e.add[i + 1][j + 1] = (i + j) % q
                              /\ e.sub[i + 1][j + 1] = (i - j) % q
                              /\ e.eq[i + 1][j + 1] = (IF i = j THEN 1 ELSE 0)
  /\ \A i \in 0 .. q - 1 : e.neg[i + 1] = (-i) % q
  /\ \A i \in 0 .. q - 1 : \A k \in -2 * q .. 2 * q : e.mul[i + 1][k + 2 * q + 1] = (i * k) % q
  /\ \A v, r \in 0 .. q - 1 : /\ e.com[v + 1][r + 1] = (v * e.g + r * e.h) % q
                              /\ e.opn[v + 1][r + 1] = [C \in 1 .. q |-> IF (v * e.g + r * e.h) % q = C - 1 THEN 1 ELSE 0]

\* ---------------------------------------------------------------- C11
CommitOK(e) ==
  LET c == EC(e) IN
  CASE e.f = "commit" -> e.res = "ok" /\ e.C = Commit(c, e.v, e.r)
    [] e.f = "ped"    -> /\ e.res = "ok" /\ e.C = Commit(c, e.v, e.r)
                         /\ BLe("0", e.r) /\ BLt(e.r, c.cv.n)
    [] e.f = "open"   -> e.res = "ok" /\ (e.ok = 1) = (e.C = Commit(c, e.v, e.r))
    [] e.f = "token"  -> e.res = "ok" /\ e.C = GMul(c, e.r, e.pk)
    [] e.f = "vtoken" -> e.res = "ok" /\ (e.ok = 1) = (e.C = GMul(c, e.r, e.pk))

\* sums of commitments and tokens: items [v, r, s] with s = 1 or -1, summed by the code
RECURSIVE SumBy(_, _, _)
SumBy(items, f, i) ==
  IF i > Len(items) THEN "0"
  ELSE LET rest == SumBy(items, f, i + 1)
           x == IF f = "v" THEN items[i].v ELSE items[i].r
       IN IF items[i].s = 1 THEN BAdd(rest, x) ELSE BSub(rest, x)
HomoOK(e) ==
  LET c == EC(e)
      v == SumBy(e.items, "v", 1)
      r == SumBy(e.items, "r", 1)
  IN /\ e.res = "ok"
     /\ e.sum = Commit(c, v, r)
     /\ e.tok = GMul(c, r, e.pk)
     /\ \A i \in DOMAIN e.opens :
          LET o == e.opens[i] IN
          (o.ok = 1) = (Commit(c, o.v, o.r) = Commit(c, v, r))

\* ---------------------------------------------------------------- C13
PublicScalars(cv) ==
  LET x == BHexPad(cv.gx, 32)  y == BHexPad(cv.gy, 32)
      par == IF BEven(cv.gy) THEN "02" ELSE "03"
  IN {SHA256(s) : s \in {"", x, y, x \o y, "04" \o x \o y, par \o x, BHex(cv.gx) \o BHex(cv.gy)}}
     \cup {x, y}
     \cup {"5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72",   \* the endomorphism's eigenvalues
           "ac9c52b33fa3cf1f5ad9e3fd77ed9ba4a880b9fc8ec739c2e0cfc810b51283ce"}
SmallMultiples == 1000
\* Q = kP or -kP for a small k
Meets(cv, P, Q) == \E k \in 1 .. SmallMultiples : PMul(cv, BOfInt(k), P)[1] = Q[1]

ParamsOK(e) ==
  LET cv == Secp256k1  B == <<cv.gx, cv.gy>>  c == EC(e) IN
  /\ e.cv = "secp"
  /\ e.p = cv.p /\ e.n = cv.n /\ e.b = cv.b /\ e.base = B
  /\ e.cof = 1 /\ e.bits = 256 /\ BMul("4", e.q14) = BAdd(cv.p, "1")
  /\ e.G = B
  /\ OnCurve(cv, e.H) /\ e.H # Inf
  /\ e.fast1 = e.H
  /\ \A i \in DOMAIN e.fast : e.fast[i].r = GMul(c, e.fast[i].k, e.H)
  /\ \A i \in DOMAIN e.fastg : e.fastg[i].r = GMul(c, e.fastg[i].k, e.G)
  /\ Len(e.pow) = 64
  /\ \A i \in 1 .. 64 : e.pow[i] = (IF i = 1 THEN e.G ELSE PAdd(cv, e.pow[i - 1], e.pow[i - 1]))
  /\ e.zero = Inf /\ e.bigzero = "0"
  /\ e.deep = 1 => /\ ~Meets(cv, B, e.H)
                   /\ ~Meets(cv, e.H, B)
                   /\ \A s \in PublicScalars(cv) : PMul(cv, BMod(BOfHex(s), cv.n), B)[1] # e.H[1]
                   /\ \A i \in 1 .. 255 : PMul(cv, BPow("2", BOfInt(i), cv.n), B)[1] # e.H[1]

\* ---------------------------------------------------------------- C19
\* the signed digits of k: the value is that of k, and no two adjacent digits are not zero
NafOK(e) ==
  LET pos == BOfHex(e.pos)  neg == BOfHex(e.neg)
      D(i) == BBit(pos, i) + BBit(neg, i)
  IN /\ BSub(pos, neg) = BOfHex(e.k)
     /\ \A i \in 0 .. BBitLen(pos) + 1 : /\ D(i) <= 1
                                        /\ D(i) * D(i + 1) = 0
KobOK(e) ==
  LET cv == Secp256k1 IN
  /\ e.res = "ok"
  /\ CASE e.f = "add"  -> e.r = PAdd(cv, e.p, e.q)
       [] e.f = "dbl"  -> e.r = PAdd(cv, e.p, e.p)
       [] e.f = "mul"  -> e.r = PMul(cv, BMod(BOfHex(e.k), cv.n), e.p)
       [] e.f = "base" -> e.r = PMul(cv, BMod(BOfHex(e.k), cv.n), <<cv.gx, cv.gy>>)
       [] e.f = "baseh" -> e.r = PMul(cv, BMod(BOfHex(e.k), cv.n), e.H)
       [] e.f = "on"   -> (e.ok = 1) = OnCurve(cv, e.p)

       [] e.f = "naf"  -> NafOK(e)

\* the multiples b * 256^i of a generator for all bytes b
TableOK(e) ==
  LET cv == Secp256k1 IN
  /\ e.res = "ok"
  /\ Len(e.pts) = 255
  /\ e.which = "G" => e.base = <<cv.gx, cv.gy>>
  /\ e.pts[1] = PMul(cv, BPow("2", BOfInt(8 * e.i), cv.n), e.base)
  /\ \A b \in 2 .. 255 : e.pts[b] = PAdd(cv, e.pts[b - 1], e.pts[1])

\* many results at once, as a chain: pts[i+1] = pts[i] + step
ChainOK(e) ==
  LET cv == Secp256k1 IN
  \A i \in 1 .. Len(e.pts) - 1 : e.pts[i + 1] = PAdd(cv, e.pts[i], e.step)

(* Very many results: the first is start times the base (or start itself,  *)
(* for a walk of additions), and every further one is the one before plus  *)
(* steps[j] times the base.  A walk of doublings doubles.                  *)
WalkOK(e) ==
  LET cv == Secp256k1
      D == [j \in DOMAIN e.steps |-> PMul(cv, e.steps[j], e.base)]
  IN /\ e.res = "ok"
     /\ e.f = "base" => e.base = <<cv.gx, cv.gy>>
     /\ OnCurve(cv, e.base)
     /\ e.pts[1] = PMul(cv, e.start, e.base)
     /\ \A i \in 1 .. Len(e.pts) - 1 :
          e.pts[i + 1] = IF e.f = "dbl" THEN PAdd(cv, e.pts[i], e.pts[i])
                         ELSE PAdd(cv, e.pts[i], D[e.js[i]])

Allowed(e) ==
  CASE e.op = "law" -> LawOK(e)
    [] e.op = "toylaw" -> ToyLawOK(e)
    [] e.op = "commit" -> CommitOK(e)
    [] e.op = "homo" -> HomoOK(e)
    [] e.op = "params" -> ParamsOK(e)
    [] e.op = "kob" -> KobOK(e)
    [] e.op = "table" -> TableOK(e)
    [] e.op = "walk" -> WalkOK(e)
    [] e.op = "chain" -> ChainOK(e)
    [] OTHER -> FALSE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ IF Allowed(Trace[l]) THEN TRUE ELSE Reject(Trace[l], "GroupTrace " \o Trace[l].op)
Spec == Init /\ [][Next]_l
===============================================================================
