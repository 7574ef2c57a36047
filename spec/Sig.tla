---------------------------------- MODULE Sig ----------------------------------
(***************************************************************************)
(* ECDSA over a curve (Curve.tla), deterministic nonces (RFC 6979 with     *)
(* SHA-256), public-key recovery (SEC 1, 4.1.6), and the encodings of      *)
(* public keys and signatures.                                             *)
(***************************************************************************)
EXTENDS Curve

BaseOf(c) == <<c.gx, c.gy>>
HalfOrder(c) == BDiv(c.n, "2")
InOrder(c, x) == BLt("0", x) /\ BLt(x, c.n)

\* the leftmost bits of the hash (a whole number of bytes, as the order of secp256k1 has 256)
OrderBytes(c) == (BBitLen(c.n) + 7) \div 8
HashInt(c, h) ==
  LET b == IF HexLen(h) > OrderBytes(c) THEN HexSub(h, 1, OrderBytes(c)) ELSE h
      excess == 8 * HexLen(b) - BBitLen(c.n)
  IN IF excess > 0 THEN BDiv(BOfHex(b), BPow("2", BOfInt(excess), "10000000000")) ELSE BOfHex(b)

\* ---------------------------------------------------------------- ECDSA
Low(c, s) == IF BLt(HalfOrder(c), s) THEN BSub(c.n, s) ELSE s
\* the signature of the integer e with key d and nonce k ("none" if k is unsuitable)
SignWith(c, d, e, k) ==
  LET R == PMul(c, k, BaseOf(c))
      r == BMod(R[1], c.n)
      s == BMod(BMul(BInv(k, c.n), BAdd(e, BMul(r, d))), c.n)
  IN [ok |-> r # "0" /\ s # "0", r |-> r, s |-> Low(c, s), R |-> R]

EcdsaOK(c, Q, e, r, s) ==
  /\ InOrder(c, r) /\ InOrder(c, s)
  /\ LET w == BInv(s, c.n)
         X == PAdd(c, PMul(c, BMod(BMul(e, w), c.n), BaseOf(c)), PMul(c, BMod(BMul(r, w), c.n), Q))
     IN X # Inf /\ BMod(X[1], c.n) = r

\* ---------------------------------------------------------------- RFC 6979 (256-bit order)
Octets(x) == BHexPad(x, 32)
Rep32(b) == BHexPad(BMul(BOfHex(b), "101010101010101010101010101010101010101010101010101010101010101"), 32)
RECURSIVE NonceLoop(_, _, _)
NonceLoop(c, K, V) ==
  LET V1 == HMAC256(K, V)
      k == BOfHex(V1)
  IN IF InOrder(c, k) THEN k
     ELSE LET K1 == HMAC256(K, V1 \o "00") IN NonceLoop(c, K1, HMAC256(K1, V1))
Nonce(c, d, h) ==
  LET z1 == HashInt(c, h)
      z2 == IF BLt(z1, c.n) THEN z1 ELSE BSub(z1, c.n)
      bx == Octets(d) \o Octets(z2)
      V0 == Rep32("01")
      K1 == HMAC256(Rep32("00"), V0 \o "00" \o bx)
      V1 == HMAC256(K1, V0)
      K2 == HMAC256(K1, V1 \o "01" \o bx)
      V2 == HMAC256(K2, V1)
  IN NonceLoop(c, K2, V2)
Sign(c, d, h) == SignWith(c, d, HashInt(c, h), Nonce(c, d, h))

\* ---------------------------------------------------------------- square roots (p = 3 mod 4)
Sqrt(c, a) == BPow(a, BDiv(BAdd(c.p, "1"), "4"), c.p)
\* the point with this x and this parity of y, or none
Lift(c, x, odd) ==
  IF ~InField(c, x) THEN [ok |-> FALSE, P |-> Inf]
  ELSE LET y0 == Sqrt(c, Rhs(c, x))
           y == IF BBit(y0, 0) = odd THEN y0 ELSE BMod(BSub("0", y0), c.p)
       IN [ok |-> OnCurve(c, <<x, y>>) /\ BBit(y, 0) = odd, P |-> <<x, y>>]

\* ---------------------------------------------------------------- recovery
\* iter: bit 0 is the parity of R's y, bit 1 whether n was subtracted from R's x
Recover(c, iter, r, s, e) ==
  LET no == [ok |-> FALSE, Q |-> Inf]
      x == IF iter >= 2 THEN BAdd(r, c.n) ELSE r
      R == Lift(c, x, iter % 2)
  IN IF ~InOrder(c, r) \/ ~InOrder(c, s) \/ ~R.ok THEN no
     ELSE LET w == BInv(r, c.n)
              Q == PSub(c, PMul(c, BMod(BMul(s, w), c.n), R.P), PMul(c, BMod(BMul(e, w), c.n), BaseOf(c)))
          IN IF Q = Inf THEN no ELSE [ok |-> TRUE, Q |-> Q]

\* compact signatures: header 27..34, r and s in 32 bytes
RecoverCompact(c, sig, h) ==
  LET no == [ok |-> FALSE, Q |-> Inf, comp |-> FALSE] IN
  IF HexLen(sig) # 65 THEN no
  ELSE LET hd == HexByte(sig, 1) - 27 IN
       IF hd < 0 \/ hd > 7 THEN no
       ELSE LET q == Recover(c, hd % 4, BOfHex(HexSub(sig, 2, 33)), BOfHex(HexSub(sig, 34, 65)), HashInt(c, h))
            IN [ok |-> q.ok, Q |-> q.Q, comp |-> hd >= 4]

\* ---------------------------------------------------------------- public keys
ParsePub(c, b) ==
  LET no == [ok |-> FALSE, P |-> Inf]
      f == HexByte(b, 1)
      x == BOfHex(HexSub(b, 2, 33))
  IN IF HexLen(b) = 33
     THEN IF f \in {2, 3} THEN Lift(c, x, f - 2) ELSE no
     ELSE IF HexLen(b) = 65
     THEN LET y == BOfHex(HexSub(b, 34, 65)) IN
          IF /\ f \in {4, 6, 7}
             /\ OnCurve(c, <<x, y>>)
             /\ f # 4 => BBit(y, 0) = f - 6
          THEN [ok |-> TRUE, P |-> <<x, y>>] ELSE no
     ELSE no
PubCompressed(P) == HexOf(2 + BBit(P[2], 0)) \o Octets(P[1])
PubUncompressed(P) == "04" \o Octets(P[1]) \o Octets(P[2])
PubHybrid(P) == HexOf(6 + BBit(P[2], 0)) \o Octets(P[1]) \o Octets(P[2])

\* ---------------------------------------------------------------- signatures
DerInt(x) == LET b == IF x = "0" THEN "00" ELSE BHex(x)
                 p == IF HexByte(b, 1) >= 128 THEN "00" \o b ELSE b
             IN "02" \o HexOf(HexLen(p)) \o p
DerSig(c, r, s) == LET body == DerInt(r) \o DerInt(Low(c, s)) IN "30" \o HexOf(HexLen(body)) \o body

\* the integer that starts at byte p of b (which ends with the signature)
ReadInt(b, p, strict) ==
  LET no == [ok |-> FALSE, v |-> "0", p |-> p] IN
  IF p + 2 > HexLen(b) THEN no
  ELSE IF HexByte(b, p) # 2 THEN no
  ELSE LET n == HexByte(b, p + 1) IN
       IF n = 0 \/ p + 1 + n > HexLen(b) THEN no
       ELSE LET m == HexSub(b, p + 2, p + 1 + n)
                neg == HexByte(m, 1) >= 128
                pad == n > 1 /\ HexByte(m, 1) = 0 /\ (IF n > 1 THEN HexByte(m, 2) < 128 ELSE FALSE)
            IN IF strict /\ (neg \/ pad) THEN no ELSE [ok |-> TRUE, v |-> BOfHex(m), p |-> p + 2 + n]

\* trail: bytes followed the announced length (the parsers ignore them)
ParseSig(c, b, strict) ==
  LET no == [ok |-> FALSE, r |-> "0", s |-> "0", trail |-> FALSE] IN
  IF HexLen(b) < 8 THEN no
  ELSE IF HexByte(b, 1) # 48 \/ HexByte(b, 2) + 2 > HexLen(b) THEN no
  ELSE LET t == HexSub(b, 1, HexByte(b, 2) + 2)
           r == ReadInt(t, 3, strict)
       IN IF ~r.ok THEN no
          ELSE LET s == ReadInt(t, r.p, strict) IN
               IF ~s.ok THEN no
               ELSE IF s.p # HexLen(t) + 1 \/ ~InOrder(c, r.v) \/ ~InOrder(c, s.v) THEN no
               ELSE [ok |-> TRUE, r |-> r.v, s |-> s.v, trail |-> HexLen(t) # HexLen(b)]

\* ---------------------------------------------------------------- encryption
(* iv (16) | 02ca 0020 X 0020 Y (70) | AES-256-CBC of the padded text |     *)
(* HMAC-SHA-256 of all before; keys are SHA-512 of the shared x coordinate *)
Secret(c, d, P) == BHex(PMul(c, d, P)[1])
DecryptSpec(c, d, b) ==
  LET no == [ok |-> FALSE, v |-> "", padded |-> FALSE]
      n == HexLen(b)
  IN IF n < 134 \/ (n - 118) % 16 # 0 THEN no
     ELSE IF HexSub(b, 17, 20) # "02ca0020" \/ HexSub(b, 53, 54) # "0020" THEN no
     ELSE LET K == ParsePub(c, "04" \o HexSub(b, 21, 52) \o HexSub(b, 55, 86)) IN
     IF ~K.ok THEN no
     ELSE LET keys == SHA512(Secret(c, d, K.P)) IN
     IF HMAC256(HexSub(keys, 33, 64), HexSub(b, 1, n - 32)) # HexSub(b, n - 31, n) THEN no
     ELSE LET t == AESCBCDec(HexSub(keys, 1, 32), HexSub(b, 1, 16), HexSub(b, 87, n - 32))
              m == HexLen(t)
              p == HexByte(t, m)
              good == p \in 1 .. 16 /\ \A i \in m - p + 1 .. m : HexByte(t, i) = p
          IN IF good THEN [ok |-> TRUE, v |-> HexSub(t, 1, m - p), padded |-> TRUE]
             ELSE [no EXCEPT !.padded = TRUE]   \* authentic, but not what an encryption makes
================================================================================
