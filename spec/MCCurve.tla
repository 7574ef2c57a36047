------------------------------- MODULE MCCurve -------------------------------
(***************************************************************************)
(* The curve arithmetic of the specification: on the toy curves it is a    *)
(* cyclic group of the stated order, for all pairs and triples of points;  *)
(* PAdd and PMul (evaluated by Java) are as defined.  On the real curves the  *)
(* base point is on the curve and has the stated order.                    *)
(***************************************************************************)
EXTENDS Curves, TLC, FiniteSets
CONSTANT Toys
VARIABLES cv, i, j

Cv == CurveTable[cv]
Q(c) == BToInt(CurveTable[c].n)
Real == {"secp", "glass", "p224", "p256", "p384", "p521"}
Init == \/ cv \in Toys /\ i \in 0 .. Q(cv) - 1 /\ j \in 0 .. Q(cv) - 1
        \/ cv \in Real /\ i \in {1, 2, 3, 7, 255, 256} /\ j \in {0, 1, 2, 100}
Next == UNCHANGED <<cv, i, j>>
Spec == Init /\ [][Next]_<<cv, i, j>>

B == <<Cv.gx, Cv.gy>>
M(k) == PMul(Cv, BOfInt(k), B)
Group ==
  LET P == M(i)  R == M(j) IN
  /\ IsPoint(Cv, P)
  /\ PAdd(Cv, P, R) = PAdd(Cv, R, P)
  /\ PAdd(Cv, P, R) = M(i + j)
  /\ PAdd(Cv, P, R) = PAddDef(Cv, P, R)
  /\ PAdd(Cv, P, P) = PAddDef(Cv, P, P)
  /\ PAdd(Cv, P, PNeg(Cv, R)) = PAddDef(Cv, P, PNeg(Cv, R))
  /\ PSub(Cv, P, R) = M(i - j)
  /\ PAdd(Cv, P, Inf) = P /\ PAdd(Cv, P, PNeg(Cv, P)) = Inf
  /\ PAdd(Cv, PAdd(Cv, P, R), B) = PAdd(Cv, P, PAdd(Cv, R, B))
  /\ M(i) = PMulDef(Cv, BOfInt(i), B)
  /\ PMul(Cv, BOfInt(i), R) = PMulDef(Cv, BOfInt(i), R)
  /\ PMul(Cv, BOfInt(-i), R) = PMulDef(Cv, BOfInt(-i), R)
Order ==
  /\ OnCurve(Cv, B) /\ PMul(Cv, Cv.n, B) = Inf
  /\ cv \in Toys => /\ \A k \in 1 .. Q(cv) - 1 : M(k) # Inf
                    /\ Cardinality({M(k) : k \in 0 .. Q(cv) - 1}) = Q(cv)
  /\ cv \in Real => PMulDef(Cv, BSub(Cv.n, BOfInt(i)), B) = PNeg(Cv, M(i))
\* the discrete logarithms of the glass curve
Visible == cv = "glass" => /\ Lg(M(i)) = BOfInt(i)
                           /\ LET k == BSub(Cv.n, BMul(BOfInt(i + 1), "7fffffffffffffffffffffffffffffff"))
                              IN Lg(PMul(Cv, k, B)) = k
==============================================================================
