------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Integers of any size, and byte strings.                                 *)
(*                                                                         *)
(* TLC's own integers have 32 bits, the protocols work with 256 and more.  *)
(* A big integer is represented here by its canonical lower-case           *)
(* hexadecimal numeral (a TLA+ string): "0", "ff", "-1a".  A byte string   *)
(* is represented by two hexadecimal digits per byte ("" when empty).      *)
(*                                                                         *)
(* The operators are evaluated by java/VerifOverrides.java                 *)
(* (java.math.BigInteger, java.security); the definitions below are        *)
(* placeholders whose comments state the meaning.  MCBigNat.tla checks     *)
(* them against TLC's integers for all small arguments.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

BWF(a)       == CHOOSE b \in BOOLEAN : TRUE  \* a is a canonical numeral
BOfInt(i)    == CHOOSE s \in STRING : TRUE   \* numeral of the TLC integer i
BToInt(a)    == CHOOSE i \in Int : TRUE      \* and back (error if it has over 32 bits)
BAdd(a, b)   == CHOOSE s \in STRING : TRUE   \* a + b
BSub(a, b)   == CHOOSE s \in STRING : TRUE   \* a - b
BMul(a, b)   == CHOOSE s \in STRING : TRUE   \* a * b
BDiv(a, b)   == CHOOSE s \in STRING : TRUE   \* floor(a / b), b > 0
BMod(a, n)   == CHOOSE s \in STRING : TRUE   \* a mod n in 0..n-1, n > 0
BInv(a, n)   == CHOOSE s \in STRING : TRUE   \* inverse of a modulo n, "0" if there is none
BPow(a, e, n) == CHOOSE s \in STRING : TRUE  \* a^e mod n
BCmp(a, b)   == CHOOSE i \in Int : TRUE      \* -1, 0 or 1
BBitLen(a)   == CHOOSE i \in Int : TRUE      \* bits of |a|
BBit(a, i)   == CHOOSE i2 \in {0, 1} : TRUE  \* bit i of a >= 0
BHex(a)      == CHOOSE s \in STRING : TRUE   \* minimal big-endian bytes of |a|
BHexPad(a, n) == CHOOSE s \in STRING : TRUE  \* the same, left-padded with zeros to n bytes
BOfHex(h)    == CHOOSE s \in STRING : TRUE   \* the number that the bytes h denote
HexLen(h)    == CHOOSE i \in Int : TRUE      \* number of bytes
HexSub(h, i, j) == CHOOSE s \in STRING : TRUE \* bytes i..j (1-based)
HexByte(h, i) == CHOOSE b \in 0..255 : TRUE  \* byte i (1-based)
HexOf(b)     == CHOOSE s \in STRING : TRUE   \* the one-byte string
SHA256(h)    == CHOOSE s \in STRING : TRUE   \* FIPS 180-4
SHA512(h)    == CHOOSE s \in STRING : TRUE   \* FIPS 180-4
AESCBCDec(k, iv, m) == CHOOSE s \in STRING : TRUE \* FIPS 197, CBC mode, no padding
HMAC256(k, m) == CHOOSE s \in STRING : TRUE  \* RFC 2104 with SHA-256

BLt(a, b) == BCmp(a, b) = -1
BLe(a, b) == BCmp(a, b) # 1
BEven(a)  == BMod(a, "2") = "0"
BZero == "0"
BOne  == "1"
=============================================================================
