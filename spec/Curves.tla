-------------------------------- MODULE Curves --------------------------------
(* The curves the drivers use (harness/curves.go has the same constants). *)
EXTENDS Sigma

ToyCurve(p, a, b, gx, gy, q) ==
  [p |-> BOfInt(p), a |-> BOfInt(a), b |-> BOfInt(b), n |-> BOfInt(q), gx |-> BOfInt(gx), gy |-> BOfInt(gy)]

P224 ==
  [p  |-> "ffffffffffffffffffffffffffffffff000000000000000000000001",
   a  |-> "-3",
   b  |-> "b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4",
   n  |-> "ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d",
   gx |-> "b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21",
   gy |-> "bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34"]
P256 ==
  [p  |-> "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
   a  |-> "-3",
   b  |-> "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
   n  |-> "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
   gx |-> "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
   gy |-> "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"]

P384 ==
  [p  |-> "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff",
   a  |-> "-3",
   b  |-> "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
   n  |-> "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
   gx |-> "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
   gy |-> "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"]
P521 ==
  [p  |-> "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
   a  |-> "-3",
   b  |-> "51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00",
   n  |-> "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409",
   gx |-> "c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66",
   gy |-> "11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"]

(* The cuspidal curve y^2 = x^3 over the field with as many elements as     *)
(* secp256k1 has points: its points other than the cusp <<0, 0>> (which     *)
(* stands for infinity) are a group isomorphic to the integers modulo p,    *)
(* by Lg below, so that every point shows its discrete logarithm.           *)
Glass == [p |-> Secp256k1.n, a |-> "0", b |-> "0", n |-> Secp256k1.n, gx |-> "1", gy |-> "1"]
Lg(P) == IF P = Inf THEN "0" ELSE BMod(BMul(P[1], BInv(P[2], Glass.p)), Glass.p)

CurveTable ==
  [secp   |-> Secp256k1,
   glass  |-> Glass,
   p224   |-> P224,
   p256   |-> P256,
   p384   |-> P384,
   p521   |-> P521,
   toy3   |-> ToyCurve(5, 4, 2, 3, 1, 3),
   toy7   |-> ToyCurve(11, 2, 7, 6, 2, 7),
   toy11  |-> ToyCurve(7, 1, 6, 1, 1, 11),
   toy13  |-> ToyCurve(7, 0, 3, 1, 2, 13),
   toy31  |-> ToyCurve(37, 2, 8, 1, 14, 31),
   toy101 |-> ToyCurve(89, 13, 30, 1, 20, 101),
   toy251 |-> ToyCurve(227, 1, 37, 2, 71, 251)]

\* parameters of an event
EC(e) == [kind |-> "ec", cv |-> CurveTable[e.cv], G |-> e.G, H |-> e.H]
ZQ(e) == [kind |-> "zq", q |-> e.q, G |-> e.g % e.q, H |-> e.h % e.q]
===============================================================================
