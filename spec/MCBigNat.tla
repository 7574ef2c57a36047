------------------------------- MODULE MCBigNat -------------------------------
(***************************************************************************)
(* The evaluators of BigNat.tla agree with TLC's integers, for all small   *)
(* arguments, and with the defining identities for large ones.             *)
(***************************************************************************)
EXTENDS BigNat, TLC
VARIABLES kind, a, b

R == -40 .. 40
Big == {"0", "1", "-1", "ff", "-100", "123456789abcdef0123456789abcdef", "-fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
        "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "10000000000000000000000000000000000000000000000000000000000000000"}
Init == \/ kind = "small" /\ a \in R /\ b \in R
        \/ kind = "large" /\ a \in Big /\ b \in Big
Next == UNCHANGED <<kind, a, b>>
Spec == Init /\ [][Next]_<<kind, a, b>>

RECURSIVE Pow(_, _, _)
Pow(x, e, n) == IF e = 0 THEN 1 % n ELSE (x * Pow(x, e - 1, n)) % n
N(x) == BOfInt(x)
RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
Abs(x) == IF x < 0 THEN -x ELSE x
Small == kind = "small" =>
  /\ BToInt(N(a)) = a /\ BWF(N(a))
  /\ BAdd(N(a), N(b)) = N(a + b) /\ BSub(N(a), N(b)) = N(a - b) /\ BMul(N(a), N(b)) = N(a * b)
  /\ b > 0 => BDiv(N(a), N(b)) = N(a \div b) /\ BMod(N(a), N(b)) = N(a % b)
  /\ BCmp(N(a), N(b)) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
  /\ b > 1 => LET i == BToInt(BInv(N(a), N(b))) IN
              IF \E x \in 0 .. b - 1 : (a * x) % b = 1 THEN (a * i) % b = 1 /\ i \in 0 .. b - 1 ELSE i = 0
  /\ (b > 0 /\ a >= 0) => BPow("3", N(a), N(b)) = N(Pow(3, a, b))
  /\ BBitLen(N(Abs(a))) = Bits(Abs(a))
  /\ a >= 0 => BOfHex(BHex(N(a))) = N(a) /\ HexLen(BHex(N(a))) = (Bits(a) + 7) \div 8
  /\ a >= 0 => BHexPad(N(a), 2) = HexOf(0) \o HexOf(a) /\ HexByte(BHexPad(N(a), 3), 3) = a
  /\ a >= 0 => \A i \in 0 .. 7 : BBit(N(a), i) = (a \div (2 ^ i)) % 2
\* identities for numbers of any size
Large == kind = "large" =>
  /\ BSub(BAdd(a, b), b) = a
  /\ BAdd(a, b) = BAdd(b, a) /\ BMul(a, b) = BMul(b, a)
  /\ BMul(a, BAdd(b, "1")) = BAdd(BMul(a, b), a)
  /\ BLt("0", b) => /\ BAdd(BMul(BDiv(a, b), b), BMod(a, b)) = a
                    /\ BLe("0", BMod(a, b)) /\ BLt(BMod(a, b), b)
                    /\ LET i == BInv(a, b) IN i # "0" => BMod(BMul(a, i), b) = BMod("1", b)
  /\ BCmp(a, b) = -BCmp(b, a)
\* FIPS 180-4 and RFC 4231 examples
Hashes ==
  /\ SHA256("") = "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"
  /\ SHA256("616263") = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
  /\ HMAC256("4a656665", "7768617420646f2079612077616e7420666f72206e6f7468696e673f")
       = "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"
===============================================================================
