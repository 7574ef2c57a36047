-------------------------------- MODULE Group --------------------------------
(***************************************************************************)
(* A cyclic group of prime order with two generators, in two shapes:       *)
(*   kind "ec": points of a curve (Curve.tla), scalars are big integers;   *)
(*   kind "zq": the integers modulo a small q, every point being named by  *)
(*              its discrete logarithm; scalars are TLC integers.          *)
(* Everything above this module is written once, for both: the design is   *)
(* model-checked exhaustively over "zq", the same definitions judge what   *)
(* the code does on real curves.                                           *)
(* Parameters: [kind |-> "ec", cv |-> curve, G, H] or                      *)
(*             [kind |-> "zq", q, G, H].                                   *)
(***************************************************************************)
EXTENDS Curve

GZero(c)      == IF c.kind = "zq" THEN 0 ELSE Inf
GAdd(c, P, Q) == IF c.kind = "zq" THEN (P + Q) % c.q ELSE PAdd(c.cv, P, Q)
GNeg(c, P)    == IF c.kind = "zq" THEN (c.q - P) % c.q ELSE PNeg(c.cv, P)
GSub(c, P, Q) == GAdd(c, P, GNeg(c, Q))
GMul(c, k, P) == IF c.kind = "zq" THEN (k * P) % c.q ELSE PMul(c.cv, BMod(k, c.cv.n), P)
GIn(c, P)     == IF c.kind = "zq" THEN P \in 0 .. c.q - 1 ELSE IsPoint(c.cv, P)

SRed(c, a)    == IF c.kind = "zq" THEN a % c.q ELSE BMod(a, c.cv.n)
SAdd(c, a, b) == IF c.kind = "zq" THEN (a + b) % c.q ELSE BMod(BAdd(a, b), c.cv.n)
SSub(c, a, b) == IF c.kind = "zq" THEN (a - b) % c.q ELSE BMod(BSub(a, b), c.cv.n)
SMul(c, a, b) == IF c.kind = "zq" THEN (a * b) % c.q ELSE BMod(BMul(a, b), c.cv.n)
SZero(c)      == IF c.kind = "zq" THEN 0 ELSE "0"
SOne(c)       == IF c.kind = "zq" THEN 1 ELSE "1"
SInv(c, a)    == IF c.kind = "zq"
                 THEN IF a % c.q = 0 THEN 0 ELSE CHOOSE b \in 1 .. c.q - 1 : (a * b) % c.q = 1
                 ELSE BInv(a, c.cv.n)
SEq(c, a, b)  == SRed(c, a) = SRed(c, b)
Canonical(c, a) == SRed(c, a) = a

Commit(c, v, r) == GAdd(c, GMul(c, v, c.G), GMul(c, r, c.H))

RECURSIVE GSum(_, _)
GSum(c, s) == IF s = <<>> THEN GZero(c) ELSE GAdd(c, Head(s), GSum(c, Tail(s)))
=============================================================================
