-------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* The group of points of a short Weierstrass curve y^2 = x^3 + a x + b    *)
(* over the field of p elements, in affine coordinates.                    *)
(* A curve is a record [p, a, b, n, gx, gy] of big integers; a point is a  *)
(* pair of big integers; the point at infinity is <<0, 0>>, as in the code *)
(* (the curves used have b # 0, so <<0, 0>> is not on them).               *)
(***************************************************************************)
EXTENDS BigNat

Inf == <<"0", "0">>

FldAdd(c, x, y) == BMod(BAdd(x, y), c.p)
FldSub(c, x, y) == BMod(BSub(x, y), c.p)
FldMul(c, x, y) == BMod(BMul(x, y), c.p)

Rhs(c, x) == BMod(BAdd(BAdd(BMul(BMul(x, x), x), BMul(c.a, x)), c.b), c.p)

InField(c, x) == BLe("0", x) /\ BLt(x, c.p)

OnCurve(c, P) == /\ InField(c, P[1]) /\ InField(c, P[2])
                 /\ FldMul(c, P[2], P[2]) = Rhs(c, P[1])

\* an element of the group
IsPoint(c, P) == P = Inf \/ OnCurve(c, P)

PNeg(c, P) == <<P[1], BMod(BSub("0", P[2]), c.p)>>

PAddDef(c, P, Q) ==
  IF P = Inf THEN Q
  ELSE IF Q = Inf THEN P
  ELSE IF P[1] = Q[1] /\ FldAdd(c, P[2], Q[2]) = "0" THEN Inf
  ELSE LET l == IF P[1] = Q[1]
                THEN FldMul(c, BAdd(BMul("3", BMul(P[1], P[1])), c.a), BInv(BMul("2", P[2]), c.p))
                ELSE FldMul(c, BSub(Q[2], P[2]), BInv(BSub(Q[1], P[1]), c.p))
           x == FldSub(c, BSub(BMul(l, l), P[1]), Q[1])
       IN <<x, FldSub(c, BMul(l, BSub(P[1], x)), P[2])>>

\* evaluated by VerifOverrides.java; MCCurve.tla compares it with PAddDef
PAdd(c, P, Q) == PAddDef(c, P, Q)

PSub(c, P, Q) == PAdd(c, P, PNeg(c, Q))

RECURSIVE PMulDef(_, _, _)
PMulDef(c, k, P) ==
  IF BLt(k, "0") THEN PMulDef(c, BSub("0", k), PNeg(c, P))
  ELSE IF k = "0" THEN Inf
  ELSE LET h == PMulDef(c, BDiv(k, "2"), P)
           d == PAddDef(c, h, h)
       IN IF BEven(k) THEN d ELSE PAddDef(c, d, P)

\* evaluated by VerifOverrides.java; MCCurve.tla compares it with PMulDef
PMul(c, k, P) == PMulDef(c, k, P)

Secp256k1 ==
  [p  |-> "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f",
   a  |-> "0",
   b  |-> "7",
   n  |-> "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
   gx |-> "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
   gy |-> "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"]
=============================================================================
