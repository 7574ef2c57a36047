--------------------------------- MODULE MCSig ---------------------------------
(***************************************************************************)
(* ECDSA itself, exhaustively on a toy curve (p = 3 mod 4): for all keys,   *)
(* nonces and hash integers, what is signed verifies and has a low s, and   *)
(* only for that key and hash integer (up to the two keys and two s that    *)
(* ECDSA's equation admits); recovery with the right hint gives the key;    *)
(* recovered keys always verify.  The DER grammar inverts its printer.      *)
(***************************************************************************)
EXTENDS Sig, TLC
CONSTANTS CurveName
VARIABLES d, e, k

Toy(p, a, b, gx, gy, q) ==
  [p |-> BOfInt(p), a |-> BOfInt(a), b |-> BOfInt(b), n |-> BOfInt(q), gx |-> BOfInt(gx), gy |-> BOfInt(gy)]
C == IF CurveName = "toy7" THEN Toy(11, 2, 7, 6, 2, 7)
     ELSE IF CurveName = "toy13" THEN Toy(7, 0, 3, 1, 2, 13)
     ELSE Toy(227, 1, 37, 2, 71, 251)
Q == BToInt(C.n)

Init == d \in 1 .. Q - 1 /\ k \in 1 .. Q - 1 /\ e \in 0 .. Q - 1
Next == UNCHANGED <<d, e, k>>
Spec == Init /\ [][Next]_<<d, e, k>>

N(i) == BOfInt(i)
Pub == PMul(C, N(d), BaseOf(C))
S == SignWith(C, N(d), N(e), N(k))

Complete == S.ok => /\ EcdsaOK(C, Pub, N(e), S.r, S.s)
                    /\ InOrder(C, S.r) /\ InOrder(C, S.s) /\ BLe(S.s, HalfOrder(C))
                    /\ EcdsaOK(C, Pub, N(e), S.r, BSub(C.n, S.s))

\* verification is the ECDSA equation: some nonce signs it
Strict == (k = 1) => \A r, s \in 0 .. Q : EcdsaOK(C, Pub, N(e), N(r), N(s)) <=>
            \E j \in 1 .. Q - 1 : LET t == SignWith(C, N(d), N(e), N(j)) IN
                                  t.ok /\ t.r = N(r) /\ (t.s = N(s) \/ BSub(C.n, t.s) = N(s))

\* the hint is the parity of R's y (of its negative when s was negated) and whether x >= n
Recovery == S.ok => \E i \in 0 .. 3 : LET q == Recover(C, i, S.r, S.s, N(e)) IN q.ok /\ q.Q = Pub
Recovered == S.ok => \A i \in 0 .. 3 : LET q == Recover(C, i, S.r, S.s, N(e)) IN
                        q.ok => OnCurve(C, q.Q) /\ EcdsaOK(C, q.Q, N(e), S.r, S.s)

Der == LET b == DerSig(C, N(k), N(d))
           p == ParseSig(C, b, TRUE)
       IN /\ p = [ok |-> TRUE, r |-> N(k), s |-> Low(C, N(d)), trail |-> FALSE]
          /\ ParseSig(C, b, FALSE) = p
          /\ \A n \in 0 .. HexLen(b) - 1 : ~ParseSig(C, HexSub(b, 1, n), FALSE).ok
ASSUME Rfc6979 ==   \* the published example (key 1, SHA-256 of "Satoshi Nakamoto")
  LET h == SHA256("5361746f736869204e616b616d6f746f")
      s == Sign(Secp256k1, "1", h)
  IN /\ Nonce(Secp256k1, "1", h) = "8f8a276c19f4149656b280621e358cce24f5f52542772691ee69063b74f15d15"
     /\ s.r = "934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d8"
     /\ s.s = "2442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5"
================================================================================
