------------------------------- MODULE WireTrace -------------------------------
(***************************************************************************)
(* Judges recorded encoding and decoding (drivers roundtrip, decode,       *)
(* varint) against Wire.tla.  C08, C09, C10.                               *)
(***************************************************************************)
EXTENDS TraceBase, Wire

\* values that the code may decode or refuse: they are not what an encoder writes
\* (another sign byte, leading zeros, minus zero, bytes after the end)
Strange(k, h, d) == d.p # HexLen(h) + 1 \/ Encode(k, d.v) # h

RoundTripOK(e) ==
  /\ e.res = "ok"
  /\ e.enc = Encode(e.k, e.vals)
  /\ e.enc2 = e.enc
  /\ e.dec = e.vals
  /\ e.left = e.extra            \* readers: what follows is left alone
  /\ e.ver1 = e.ver2

\* memory in proportion: a constant (the limits of the format) and some times the input
MemOK(e) == e.alloc <= 400000 + 200 * HexLen(e.in)

DecodeOK(e) ==
  LET d == Decode(e.k, e.in)
      w == DecodeL(e.k, e.in, NoLimits)   \* what the bytes say, within the limits or not
  IN
  /\ e.res \in {"ok", "error"}
  /\ MemOK(e)
  /\ e.res = "ok" => /\ w.ok
                     /\ e.dec = w.v
                     /\ e.ver \in {"accept", "reject", "none"}
  /\ e.res = "error" => ~d.ok \/ Strange(e.k, e.in, d)

\* every proper prefix of an encoding is an error (MCWire: Prefixes); `oks' are the lengths
\* for which it was not, `others' the outcomes other than an error
PrefixesOK(e) == e.oks = <<>> /\ e.others = <<>> /\ e.n = HexLen(e.in) /\ MemOK(e)

\* ---------------------------------------------------------------- integers
VarIntOK(e) ==
  \A i \in DOMAIN e.vals :
    /\ e.enc[i] = EncVI(e.vals[i])
    /\ e.size[i] = VISize(e.vals[i])
    /\ e.dec[i] = e.vals[i]
    /\ e.left[i] = 3               \* three bytes followed

ReadOK(e) ==        \* reading an integer from arbitrary bytes
  LET d == DecVI(e.in, 1) IN
  /\ e.res = (IF d.ok THEN "ok" ELSE "error")
  /\ d.ok => e.v = d.v /\ e.used = d.p - 1

ReadBytesOK(e) ==
  LET d == DecBytes(e.in, 1, e.max) IN
  /\ e.res = (IF d.ok THEN "ok" ELSE "error")
  /\ d.ok => e.v = d.v /\ e.used = d.p - 1
  /\ MemOK(e)

\* a reader or writer that fails after `at' bytes
FailOK(e) == IF e.at >= e.need THEN e.res = "ok" /\ e.same = 1 ELSE e.res = "error"

Allowed(e) ==
  CASE e.op = "roundtrip" -> RoundTripOK(e)
    [] e.op = "decode" -> DecodeOK(e)
    [] e.op = "verify" -> TRUE     \* something decoded was accepted: see SigmaTrace, mode decoded
    [] e.op = "prefixes" -> PrefixesOK(e)
    [] e.op = "varint" -> VarIntOK(e)
    [] e.op = "read" -> ReadOK(e)
    [] e.op = "readbytes" -> ReadBytesOK(e)
    [] e.op = "writebytes" -> e.res = "ok" /\ e.out = EncBytes(e.in)
    [] e.op = "fail" -> FailOK(e)
    [] e.op = "distinct" -> e.equal = e.equalenc   \* equal encodings iff equal values
    [] e.op = "rand64" -> e.res = "ok" /\ e.v \in {BOfHex(e.in), BOfHex(HexRev(e.in))}
    [] OTHER -> FALSE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ IF Allowed(Trace[l]) THEN TRUE ELSE Reject(Trace[l], "WireTrace " \o Trace[l].op)
Spec == Init /\ [][Next]_l
===============================================================================
