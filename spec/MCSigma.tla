-------------------------------- MODULE MCSigma --------------------------------
(***************************************************************************)
(* The design of the proof systems, checked exhaustively over Z_q: for     *)
(* every statement, witness, nonce and challenge                           *)
(*   Completeness      the honest answer satisfies all equations           *)
(*   SpecialSoundness  two accepting answers to different challenges for   *)
(*                     the same first message give a witness               *)
(*   Simulation        for every challenge and response there is exactly   *)
(*                     one first message (per equation) that accepts, and  *)
(*                     the honest first messages and answers are uniform   *)
(*                     over the accepting triples                          *)
(* The disjunctive proof inside an abc proof is covered by its own kind.   *)
(* One state per kind, statement (and witness): TLC's state graph is the   *)
(* enumeration.                                                            *)
(***************************************************************************)
EXTENDS Sigma, TLC

CONSTANTS Q, GG, HH, Kinds
c == [kind |-> "zq", q |-> Q, G |-> GG, H |-> HH]
Zq == 0 .. Q - 1

VARIABLES kind, st, wit, phase

Sts(k) ==
  CASE k = "gspfs" -> [A : Zq]
    [] k \in {"eq", "disj"} -> [B1 : Zq, R1 : Zq, B2 : Zq, R2 : Zq]
    [] k = "cons" -> [CM : Zq, CT : Zq, PK : Zq]
    [] k = "abc" -> [CM : Zq, CT : Zq]
Wits(k) ==
  CASE k = "gspfs" -> [Base : Zq, x : Zq]
    [] k = "eq" -> [x : Zq]
    [] k = "disj" -> [x : Zq, side : Sides]
    [] k = "cons" -> [v : Zq, r : Zq]
    [] k = "abc" -> [v : Zq, sk : Zq, side : Sides]

TrueW(k, s, w) ==
  IF k = "abc" THEN ~AbcRefuse(c, s, w) /\ \E r \in Zq : RelAbcFull(c, s, [v |-> w.v, sk |-> w.sk, r |-> r])
  ELSE Rel(k, c, s, w)

EqsOf(k, s, pf) == IF k = "abc" THEN EqsAbcOuter(c, s, pf) ELSE Eqs(k, c, s, pf)

Init == kind \in Kinds /\ st \in Sts(kind) /\ wit \in Wits(kind) /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<kind, st, wit>>
Spec == Init /\ [][Next]_<<kind, st, wit, phase>>

Nonces == [1 .. NNonces(kind) -> Zq]

Completeness ==
  phase = 1 /\ TrueW(kind, st, wit) =>
    \A u \in Nonces : \A ch \in Zq : AllTrue(EqsOf(kind, st, Answer(kind, c, st, wit, u, ch)))

\* and it is not vacuous: a false witness fails for some challenge
FalseFails ==
  phase = 1 /\ kind # "abc" /\ ~TrueW(kind, st, wit) =>
    \E u \in Nonces : \E ch \in Zq : ~AllTrue(EqsOf(kind, st, Answer(kind, c, st, wit, u, ch)))

\* the scalars of a proof, given the first message f
Resp(k, f, ch, s) ==
  CASE k = "gspfs" -> [Base |-> f.Base, T |-> f.T, c |-> ch, s |-> s[1]]
    [] k = "eq" -> [T1 |-> f.T1, T2 |-> f.T2, c |-> ch, s |-> s[1]]
    [] k = "disj" -> [T1 |-> f.T1, T2 |-> f.T2, c |-> ch, c1 |-> s[3], c2 |-> (ch - s[3]) % Q, s1 |-> s[1], s2 |-> s[2]]
    [] k = "cons" -> [T1 |-> f.T1, T2 |-> f.T2, c |-> ch, s1 |-> s[1], s2 |-> s[2]]
    [] k = "abc" -> [B |-> f.B, C |-> f.C, T1 |-> f.T1, T2 |-> f.T2, c |-> ch, j |-> s[1], k |-> s[2], l |-> s[3]]
NResp(k) == CASE k \in {"gspfs", "eq"} -> 1 [] k = "disj" -> 3 [] k = "cons" -> 2 [] k = "abc" -> 3
Firsts(k) ==
  CASE k = "gspfs" -> [Base : {wit.Base}, T : Zq]
    [] k \in {"eq", "disj", "cons"} -> [T1 : Zq, T2 : Zq]
    [] k = "abc" -> [B : Zq, C : Zq, T1 : Zq, T2 : Zq]

Acc(f, ch) == {s \in [1 .. NResp(kind) -> Zq] : AllTrue(EqsOf(kind, st, Resp(kind, f, ch, s)))}

\* the statement is in the language (some witness, any side)
InLang ==
  CASE kind = "gspfs" -> \E x \in Zq : GMul(c, x, wit.Base) = st.A
    [] kind = "eq" -> \E x \in Zq : Rel("eq", c, st, [x |-> x])
    [] kind = "disj" -> \E x \in Zq, sd \in Sides : Rel("disj", c, st, [x |-> x, side |-> sd])
    [] kind = "cons" -> \E v \in Zq, r \in Zq : Rel("cons", c, st, [v |-> v, r |-> r])
    [] OTHER -> TRUE

SpecialSoundness ==
  phase = 1 /\ kind \in {"gspfs", "eq", "disj", "cons"} /\ ~InLang =>
    \A f \in Firsts(kind) : Cardinality({ch \in Zq : Acc(f, ch) # {}}) <= 1

\* honest (first, challenge, response) triples for challenge ch, over all nonces
Honest(ch) == {LET a == Answer(kind, c, st, wit, u, ch) IN a : u \in Nonces}
AccAll(ch) == {Resp(kind, f, ch, s) : f \in Firsts(kind), s \in [1 .. NResp(kind) -> Zq]}
Simulation ==
  phase = 1 /\ kind \in {"gspfs", "eq", "disj", "cons"} /\ TrueW(kind, st, wit) =>
    \A ch \in Zq :
      /\ Honest(ch) = {p \in AccAll(ch) : AllTrue(Eqs(kind, c, st, p))}
      /\ Cardinality(Honest(ch)) = Cardinality(Nonces)
===============================================================================
