-------------------------------- MODULE Nonces --------------------------------
(***************************************************************************)
(* The random scalars behind an honest proof, computed with its witness:   *)
(* those that only appear as points as their multiples of H - on the curve *)
(* `glass' these are read off as well.                                     *)
(***************************************************************************)
EXTENDS Even

Scal(c, k, w, pf) ==     \* the nonces that the witness reveals
  CASE k = "gspfs" -> << SAdd(c, pf.s, SMul(c, pf.c, w.x)) >>
    [] k = "eq"    -> << SSub(c, pf.s, SMul(c, pf.c, w.x)) >>
    [] k = "disj"  -> IF w.side = 0
                      THEN << SSub(c, pf.s1, SMul(c, pf.c1, w.x)), pf.s2, pf.c2 >>
                      ELSE << SSub(c, pf.s2, SMul(c, pf.c2, w.x)), pf.s1, pf.c1 >>
    [] k = "cons"  -> << SSub(c, pf.s1, SMul(c, pf.c, w.v)), SSub(c, pf.s2, SMul(c, pf.c, w.r)) >>
    [] k = "abc"   -> << SSub(c, pf.j, SMul(c, pf.c, w.v)), SSub(c, pf.k, SMul(c, pf.c, SInv(c, w.sk))) >>
                      \o (IF w.side = 0 THEN << SSub(c, pf.D.s1, SMul(c, pf.D.c1, w.sk)), pf.D.s2, pf.D.c2 >>
                                        ELSE << pf.D.s1, pf.D.c1 >>)
    [] k = "range" -> << >>

PointNonces(c, k, w, pf) ==   \* the others, as u H
  CASE k = "abc" ->
         LET u1 == SSub(c, pf.j, SMul(c, pf.c, w.v))
             ucH == GSub(c, pf.C, GMul(c, IF w.side = 0 THEN "0" ELSE "1", c.G))
         IN << GSub(c, pf.B, GMul(c, IF w.side = 0 THEN "0" ELSE SInv(c, w.v), c.G)),   \* ub
               ucH,                                                                    \* uc
               GSub(c, pf.T2, GMul(c, u1, pf.B)) >>                                    \* u3
            \o (IF w.side = 0 THEN << >>     \* right: the nonce of the inner proof, s2 = u + c2 uc
                ELSE << GSub(c, GMul(c, pf.D.s2, c.H), GMul(c, pf.D.c2, ucH)) >>)
    [] k = "range" ->
         LET vH(i) == GSub(c, pf.t[i].C, GMul(c, IF BBit(w.v, i - 1) = 1 THEN Pow2(i - 1) ELSE "0", c.G))
         IN [i \in 1 .. Len(pf.t) |-> vH(i)]
            \o [i \in 1 .. Len(pf.t) |-> GSub(c, GMul(c, pf.t[i].s, c.H), GMul(c, pf.e, vH(i)))]
            \o RangeR(c, pf)     \* k H where the bit is 0
    [] OTHER -> << >>

Single(s) == [i \in DOMAIN s |-> << s[i] >>]

\* per slot, the nonces as scalars; vis: those behind points, too
NonceSlots(c, k, w, pf, vis) ==
  LET s == Scal(c, k, w, pf)
      \* abc has different slots on the two sides: only the common ones are followed
      s4 == IF k = "abc" THEN SubSeq(s, 1, 4) ELSE s
  IN IF ~vis THEN Single(s4)
     ELSE LET h == BInv(Lg(c.H), c.cv.n)
              pn == PointNonces(c, k, w, pf)
              u == [i \in DOMAIN pn |-> SMul(c, Lg(pn[i]), h)]
              m == IF k = "range" THEN Len(pf.t) ELSE 0
          IN IF k = "range" THEN << SubSeq(u, 1, m), SubSeq(u, m + 1, 2 * m), SubSeq(u, 2 * m + 1, Len(u)) >>
             ELSE Single(s4) \o Single(SubSeq(u, 1, IF Len(u) < 3 THEN Len(u) ELSE 3))
===============================================================================
