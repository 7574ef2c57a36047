-------------------------------- MODULE SigTrace --------------------------------
(***************************************************************************)
(* Judges recorded signing, verification, recovery (C20), parsing and      *)
(* serialization (C21), key agreement and encryption (C22) against         *)
(* Sig.tla.  The state remembers every initialization vector and ephemeral *)
(* key that an encryption has used.                                        *)
(***************************************************************************)
EXTENDS TraceBase, Sig
VARIABLE seen
c == Secp256k1
Key(d) == PMul(c, BMod(d, c.n), BaseOf(c))

\* ---------------------------------------------------------------- C20
SignOK(e) ==
  LET s == Sign(c, e.d, e.h) IN
  IF s.ok THEN /\ e.res = "ok" /\ e.Q = Key(e.d)
               /\ e.r = s.r /\ e.s = s.s /\ e.r2 = s.r /\ e.s2 = s.s
               /\ e.h # "" => e.ver = 1
  ELSE e.res = "error"
\* (the standard library rejects an empty hash)
VerifyOK(e) == /\ e.res = "ok"
               /\ \/ (e.ok = 1) = EcdsaOK(c, e.Q, HashInt(c, e.h), e.r, e.s)
                  \/ e.h = "" /\ e.ok = 0
CompactOK(e) ==
  LET s == Sign(c, e.d, e.h)
      q == RecoverCompact(c, e.sig, e.h)
  IN /\ e.res = "ok" /\ s.ok
     /\ HexSub(e.sig, 2, 65) = Octets(s.r) \o Octets(s.s)
     /\ q.ok /\ q.Q = Key(e.d) /\ q.comp = (e.comp = 1)
RecoverOK(e) ==
  LET q == RecoverCompact(c, e.sig, e.h) IN
  \/ e.res = "ok" /\ q.ok /\ e.Q = q.Q /\ (e.comp = 1) = q.comp
  \/ e.res = "error" /\ (~q.ok \/ BLt(HalfOrder(c), BOfHex(HexSub(e.sig, 34, 65))))   \* no signer makes a high s

\* ---------------------------------------------------------------- C21
PubOK(e) ==
  LET q == ParsePub(c, e.b) IN
  IF q.ok THEN e.res = "ok" /\ e.P = q.P ELSE e.res = "error"
PubSerOK(e) ==
  /\ e.res = "ok"
  /\ e.c = PubCompressed(e.P) /\ e.u = PubUncompressed(e.P) /\ e.y = PubHybrid(e.P)
IsCompOK(e) == e.res = "ok" /\ (e.ok = 1) = (HexLen(e.b) = 33 /\ HexByte(e.b \o "00", 1) \in {2, 3})
PrivOK(e) == /\ e.res = "ok" /\ e.d = BOfHex(e.b) /\ e.Q = Key(e.d)
             /\ e.ser = BHexPad(e.d, 32)
SigParseOK(e) ==
  LET q == ParseSig(c, e.b, e.strict = 1) IN
  \/ e.res = "ok" /\ q.ok /\ e.r = q.r /\ e.s = q.s
  \/ e.res = "error" /\ (~q.ok \/ q.trail)
SigSerOK(e) == e.res = "ok" /\ e.b = DerSig(c, e.r, e.s)
EqualOK(e) == e.res = "ok" /\ (e.ok = 1) = (e.p = e.q)

\* ---------------------------------------------------------------- C22
(* Bytes on the wire are pinned when the shared coordinate has 32 bytes;   *)
(* for shorter ones there are two conventions (RFC 5903 pads), and only    *)
(* the two sides of this code have to agree.                               *)
FullSecret(d, P) == HexLen(Secret(c, d, P)) = 32
EphemeralOf(ct) == ParsePub(c, "04" \o HexSub(ct, 21, 52) \o HexSub(ct, 55, 86))
Marks(ct) == {HexSub(ct, 1, 16), HexSub(ct, 21, 52)}
EncOK(e) ==
  /\ e.res = "ok" /\ e.dres = "ok" /\ e.dec = e.m
  /\ HexLen(e.ct) = 118 + 16 * (HexLen(e.m) \div 16 + 1)
  /\ EphemeralOf(e.ct).ok
  /\ Marks(e.ct) \cap seen = {}
  /\ FullSecret(e.d, EphemeralOf(e.ct).P)
       => DecryptSpec(c, e.d, e.ct) = [ok |-> TRUE, v |-> e.m, padded |-> TRUE]
\* an arbitrary ciphertext
DecOK(e) ==
  LET q == DecryptSpec(c, e.d, e.ct) IN
  IF q.ok THEN \/ e.res = "ok" /\ e.m = q.v
               \/ e.res = "error" /\ e.m = "" /\ ~FullSecret(e.d, EphemeralOf(e.ct).P)
  ELSE \/ e.res = "error" /\ e.m = ""
       \/ e.res = "ok" /\ q.padded      \* its maker had the key; not an encryption
\* modifications of an encryption (e.n of them): none is accepted, none gives text
MutantsOK(e) == e.n > 0 /\ e.bad = <<>>
SecretOK(e) ==
  /\ e.res = "ok" /\ e.s1 = e.s2
  /\ BOfHex(e.s1) = PMul(c, BMod(BMul(e.d1, e.d2), c.n), BaseOf(c))[1]
  /\ HexLen(e.s1) <= 32

Allowed(e) ==
  CASE e.op = "sign" -> SignOK(e)
    [] e.op = "verify" -> VerifyOK(e)
    [] e.op = "compact" -> CompactOK(e)
    [] e.op = "recover" -> RecoverOK(e)
    [] e.op = "pub" -> PubOK(e)
    [] e.op = "pubser" -> PubSerOK(e)
    [] e.op = "iscomp" -> IsCompOK(e)
    [] e.op = "priv" -> PrivOK(e)
    [] e.op = "sig" -> SigParseOK(e)
    [] e.op = "sigser" -> SigSerOK(e)
    [] e.op = "equal" -> EqualOK(e)
    [] e.op = "enc" -> EncOK(e)
    [] e.op = "dec" -> DecOK(e)
    [] e.op = "mutants" -> MutantsOK(e)
    [] e.op = "secret" -> SecretOK(e)
    [] OTHER -> FALSE

Init == l = 1 /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ IF Allowed(e) THEN TRUE ELSE Reject(e, "SigTrace " \o e.op)
           /\ seen' = IF e.op = "enc" /\ e.res = "ok" THEN seen \cup Marks(e.ct) ELSE seen
Spec == Init /\ [][Next]_<<l, seen>>
================================================================================
