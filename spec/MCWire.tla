-------------------------------- MODULE MCWire --------------------------------
(***************************************************************************)
(* The wire format itself: for all integers near the boundaries, all byte  *)
(* strings over a small alphabet, and all small big integers and points,   *)
(* decoding inverts encoding, no encoding is a proper prefix of another,   *)
(* and every proper prefix is an error.                                    *)
(***************************************************************************)
EXTENDS Wire, TLC, FiniteSets
VARIABLES kind, x

Near(b) == {BAdd(b, BOfInt(i)) : i \in -3 .. 3}
Ints == {n \in UNION {Near(b) : b \in {"3", "fd", "100", "ffff", "10000", "7fffffff", "80000000", "ffffffff", "100000000",
          "7fffffffffffffff", "ffffffffffffffff", "123456789abcdef0"}} : BLe("0", n) /\ BLe(n, "ffffffffffffffff")}
Bigs == UNION {Near(b) \cup Near(BSub("0", b)) : b \in {"0", "ff", "ffff", "10000000000000000", "10000000000000000000000000000000000000000000000000000000000000000"}}
Coords == {b \in Bigs : BLe("0", b) /\ HexLen(BHex(b)) <= MaxCoord}
Bytes1 == {"00", "01", "fc", "fd", "fe", "ff"}
Strs == {""} \cup Bytes1 \cup {a \o b : a \in Bytes1, b \in Bytes1} \cup {a \o b \o c : a \in Bytes1, b \in Bytes1, c \in Bytes1}
        \cup {a \o b \o c \o "00" \o d : a \in {"fd", "fe", "ff", "02"}, b \in Bytes1, c \in Bytes1, d \in Bytes1}

Init == \/ kind = "vi" /\ x \in Ints
        \/ kind = "int" /\ x \in Bigs
        \/ kind = "point" /\ x \in Coords \X Coords
        \/ kind = "str" /\ x \in Strs
        \/ kind = "disj" /\ x \in [1 .. 2 -> {"0", "1", "ff", "100"}] \X [1 .. 2 -> {"0", "-1", "80"}]
Next == UNCHANGED <<kind, x>>
Spec == Init /\ [][Next]_<<kind, x>>

Enc == CASE kind = "vi" -> EncVI(x) [] kind = "int" -> EncInt(x) [] kind = "point" -> EncPt(x) [] kind = "str" -> EncBytes(x)
         [] kind = "disj" -> Encode("disj", <<x[1][1], x[1][2], x[1][2], x[1][1], x[2][1], x[2][2], x[2][1], x[2][1], x[2][2]>>)
Dec(h) == CASE kind = "vi" -> DecVI(h, 1) [] kind = "int" -> DecInt(h, 1, Limits) [] kind = "point" -> Decode("point", h)
            [] kind = "str" -> DecBytes(h, 1, 1000) [] kind = "disj" -> Decode("disj", h)
Val == CASE kind = "point" -> <<x[1], x[2]>>
         [] kind = "disj" -> <<x[1][1], x[1][2], x[1][2], x[1][1], x[2][1], x[2][2], x[2][1], x[2][1], x[2][2]>>
         [] OTHER -> x

RoundTrip == /\ Dec(Enc) = Yes(Val, HexLen(Enc) + 1)
             /\ Dec(Enc \o "00ff") = Yes(Val, HexLen(Enc) + 1)
Prefixes == \A n \in 0 .. HexLen(Enc) - 1 : ~Dec(HexSub(Enc, 1, n)).ok
Shortest == kind = "vi" => \A i \in Ints : i # x => EncVI(i) # EncVI(x)
\* whatever decodes as an integer, encodes to what was read (only canonical forms are read)
Canon == kind = "str" => LET d == DecVI(x, 1) IN d.ok => HexSub(x, 1, d.p - 1) = EncVI(d.v)
===============================================================================
