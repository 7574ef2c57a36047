--------------------------------- MODULE Wire ---------------------------------
(***************************************************************************)
(* The wire format.  Byte strings are hexadecimal strings (BigNat.tla);    *)
(* a decoder takes the string and a position (1-based) and returns         *)
(* [ok, v, p] with the position after what was read.                       *)
(*                                                                         *)
(*   integer     shortest of: 1 byte below fd; fd + 2; fe + 4; ff + 8      *)
(*               bytes, little-endian                                      *)
(*   bytes       integer (length), then the bytes; the reader has a limit  *)
(*   point       bytes of X, bytes of Y (big-endian, minimal; limit 32)    *)
(*   big integer bytes: sign (0 or 1), absolute value (limit 1 + 1024)     *)
(*   proofs      Layout below; values are flattened to a sequence of       *)
(*               numerals (a point is two)                                 *)
(***************************************************************************)
EXTENDS BigNat

RECURSIVE HexRev(_)
HexRev(h) == IF HexLen(h) <= 1 THEN h ELSE HexRev(HexSub(h, 2, HexLen(h))) \o HexSub(h, 1, 1)

No(p) == [ok |-> FALSE, v |-> "0", p |-> p]
Yes(v, p) == [ok |-> TRUE, v |-> v, p |-> p]

\* ---------------------------------------------------------------- integers
VISize(n) == IF BLt(n, "fd") THEN 1 ELSE IF BLe(n, "ffff") THEN 3 ELSE IF BLe(n, "ffffffff") THEN 5 ELSE 9
EncVI(n) == CASE VISize(n) = 1 -> BHexPad(n, 1)
              [] VISize(n) = 3 -> "fd" \o HexRev(BHexPad(n, 2))
              [] VISize(n) = 5 -> "fe" \o HexRev(BHexPad(n, 4))
              [] VISize(n) = 9 -> "ff" \o HexRev(BHexPad(n, 8))

DecVI(h, p) ==
  IF p > HexLen(h) THEN No(p)
  ELSE LET b == HexByte(h, p)
           w == IF b < 253 THEN 0 ELSE IF b = 253 THEN 2 ELSE IF b = 254 THEN 4 ELSE 8
       IN IF w = 0 THEN Yes(BOfInt(b), p + 1)
          ELSE IF p + w > HexLen(h) THEN No(p)
          ELSE LET v == BOfHex(HexRev(HexSub(h, p + 1, p + w)))
               IN IF VISize(v) = w + 1 THEN Yes(v, p + 1 + w) ELSE No(p)

\* ---------------------------------------------------------------- byte strings
EncBytes(b) == EncVI(BOfInt(HexLen(b))) \o b
DecBytes(h, p, max) ==
  LET n == DecVI(h, p) IN
  IF ~n.ok \/ BLt(BOfInt(max), n.v) \/ BLt(BOfInt(HexLen(h)), n.v) THEN No(p)
  ELSE LET k == BToInt(n.v) IN
       IF n.p + k - 1 > HexLen(h) THEN No(p) ELSE Yes(HexSub(h, n.p, n.p + k - 1), n.p + k)

\* ---------------------------------------------------------------- points, big integers
(* The limits of the decoders (on coordinates, integers with their sign,   *)
(* tuples and the inner proof).  What an encoder writes is within them;    *)
(* beyond them a decoder may refuse.                                       *)
MaxCoord == 32
MaxInt == 1 + 1024
MaxTuples == 40
MaxInner == 100000
Limits == [coord |-> MaxCoord, int |-> MaxInt, tuples |-> MaxTuples, inner |-> MaxInner]
NoLimits == [coord |-> 1000000000, int |-> 1000000000, tuples |-> 1000000000, inner |-> 1000000000]
EncInt(x) == EncBytes((IF BLt(x, "0") THEN "01" ELSE "00") \o BHex(x))
DecInt(h, p, L) ==
  LET b == DecBytes(h, p, L.int) IN
  IF ~b.ok \/ b.v = "" THEN No(p)
  ELSE LET m == BOfHex(HexSub(b.v, 2, HexLen(b.v)))
       IN Yes(IF HexByte(b.v, 1) = 1 THEN BSub("0", m) ELSE m, b.p)
EncCoord(x) == EncBytes(BHex(x))
DecCoord(h, p, L) == LET b == DecBytes(h, p, L.coord) IN IF b.ok THEN Yes(BOfHex(b.v), b.p) ELSE No(p)
EncPt(P) == EncCoord(P[1]) \o EncCoord(P[2])

\* ---------------------------------------------------------------- proofs
(* C: coordinate, I: integer, D: a disjunctive proof as a byte string,      *)
(* T: number of tuples (at most 40), then C C I for each                    *)
Layout(k) ==
  CASE k = "gspfs" -> <<"C", "C", "C", "C", "I", "I">>
    [] k = "eq"    -> <<"C", "C", "C", "C", "I", "I">>
    [] k = "disj"  -> <<"C", "C", "C", "C", "I", "I", "I", "I", "I">>
    [] k = "cons"  -> <<"C", "C", "C", "C", "I", "I", "I">>
    [] k = "abc"   -> <<"C", "C", "C", "C", "C", "C", "C", "C", "I", "I", "I", "I", "C", "C", "D">>
    [] k = "range" -> <<"C", "C", "I", "T">>
    [] k = "point" -> <<"C", "C">>
    [] k = "int"   -> <<"I">>

RECURSIVE EncSeq(_, _)
RECURSIVE EncTuples(_)
EncTuples(vs) == IF vs = <<>> THEN ""
                 ELSE EncCoord(vs[1]) \o EncCoord(vs[2]) \o EncInt(vs[3]) \o EncTuples(SubSeq(vs, 4, Len(vs)))
\* lay out the values vs
EncSeq(lay, vs) ==
  IF lay = <<>> THEN ""
  ELSE CASE lay[1] = "C" -> EncCoord(vs[1]) \o EncSeq(Tail(lay), Tail(vs))
         [] lay[1] = "I" -> EncInt(vs[1]) \o EncSeq(Tail(lay), Tail(vs))
         [] lay[1] = "D" -> EncBytes(EncSeq(Layout("disj"), vs))
         [] lay[1] = "T" -> EncVI(BOfInt(Len(vs) \div 3)) \o EncTuples(vs)
Encode(k, vs) == EncSeq(Layout(k), vs)

RECURSIVE DecSeq(_, _, _, _, _)
RECURSIVE DecTuples(_, _, _, _, _)
DecTuples(h, p, n, acc, L) ==
  IF n = 0 THEN Yes(acc, p)
  ELSE LET x == DecCoord(h, p, L) IN IF ~x.ok THEN No(p)
  ELSE LET y == DecCoord(h, x.p, L) IN IF ~y.ok THEN No(p)
  ELSE LET s == DecInt(h, y.p, L) IN IF ~s.ok THEN No(p)
  ELSE DecTuples(h, s.p, n - 1, acc \o <<x.v, y.v, s.v>>, L)
DecSeq(lay, h, p, acc, L) ==
  IF lay = <<>> THEN Yes(acc, p)
  ELSE CASE lay[1] = "C" -> LET r == DecCoord(h, p, L) IN IF r.ok THEN DecSeq(Tail(lay), h, r.p, Append(acc, r.v), L) ELSE No(p)
         [] lay[1] = "I" -> LET r == DecInt(h, p, L) IN IF r.ok THEN DecSeq(Tail(lay), h, r.p, Append(acc, r.v), L) ELSE No(p)
         [] lay[1] = "D" -> LET b == DecBytes(h, p, L.inner) IN
                            IF ~b.ok THEN No(p)
                            ELSE LET r == DecSeq(Layout("disj"), b.v, 1, acc, L)
                                 IN IF r.ok THEN Yes(r.v, b.p) ELSE No(p)
         [] lay[1] = "T" -> LET n == DecVI(h, p) IN
                            IF ~n.ok \/ BLt(BOfInt(L.tuples), n.v) \/ BLt(BOfInt(HexLen(h)), n.v) THEN No(p)
                            ELSE DecTuples(h, n.p, BToInt(n.v), acc, L)
DecodeL(k, h, L) == DecSeq(Layout(k), h, 1, <<>>, L)
Decode(k, h) == DecodeL(k, h, Limits)
===============================================================================
