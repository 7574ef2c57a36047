#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["return values of the exported functions"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Completeness: an honestly made proof always verifies",
 "Whenever a prover is given a true statement and its witness it returns a proof without error, and the verifier accepts that proof for that statement. This holds for every proof type and side, every witness representative (negative, zero, at or beyond the group order), every base, generator and curve, and every outcome of the random draws.",
 ["inputs", "configurations"], "all proof types, statements, witnesses, nonces, curves and generators",
 "The tests prove a handful of small positive values with random nonces on one curve; rare nonces, degenerate points, negative or oversized witnesses and other curves are never reached.",
 ["gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "inequality.go", "rangeproof.go"],
 [("provers and verifiers compute the same equations", "New*Proof / Verify in each file"), ("reduction modulo N", "crypto.go Mult, PedCommitR")])

prop("C02", "Provers refuse false statements",
 "A prover that can see that the statement does not hold for the witness it is given (a result that is not the multiple of the base, a commitment or token that does not match, the wrong side, equal values for an inequality, a value out of range, an unknown side) returns an error, and nothing it returns with that error verifies. It never refuses a statement that does hold.",
 ["inputs"], "all statements and witnesses, true and false, compared modulo the group order",
 "The tests try a few false statements per proof type; whether every mismatch is noticed, in each argument and for each representative modulo the order, is beyond sampling by hand.",
 ["gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "inequality.go", "rangeproof.go"],
 [("relation check before proving", "New*Proof")])

prop("C03", "Soundness: every verification equation is enforced",
 "A verifier accepts a proof exactly when the challenge is the hash of the transcript and all verification equations of that proof type hold for all of the proof's components; if a single one fails, whatever the others do, it reports failure with an error. Points that are not on the curve, and missing points or scalars, are never accepted.",
 ["inputs", "programs"], "all statements and all proofs, including adaptively forged ones that satisfy every equation but one",
 "The tests corrupt at most one value of an honest proof, which makes the challenge comparison fail first; that each remaining equation is decisive is never exercised.",
 ["gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "inequality.go", "rangeproof.go", "crypto.go"],
 [("equation checks", "Verify in each file"), ("point comparison", "crypto.go ECPoint.Equal"), ("curve membership", "crypto.go checkInput")])

prop("C04", "Binding: a proof is bound to its statement, bases and generators",
 "The challenge of every proof depends on every part of the statement (bases, results, commitments, tokens, keys), on the generators the statement refers to, and on every random commitment of the proof, and equals the SHA-256 of the transcript reduced modulo the group order. Changing any one of these parts changes the challenge, so a proof accepted for one statement is rejected for every other statement and cannot be completed by choosing a part after the challenge is known.",
 ["inputs", "configurations"], "all pairs of statements or proofs that differ in one part, including a point and its negative",
 "Tests never compare challenges across statements; a part left out of the hash changes nothing for honest runs.",
 ["crypto.go", "gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "rangeproof.go"],
 [("Fiat-Shamir hash", "crypto.go GenerateChallenge and its call sites"), ("point encoding", "crypto.go ECPoint.Bytes")])

prop("C05", "Zero knowledge: proofs reveal nothing about the witness or the side",
 "Over uniformly random draws, the distribution of the proof for a statement is uniform over the accepting proofs, and so independent of the witness representative and of which side of a disjunction is being proved. All responses and challenge shares are canonical integers below the group order.",
 ["inputs", "configurations"], "all statements, witnesses and sides; all outcomes of the random draws",
 "A distribution cannot be judged from the few proofs a test makes; tests only look at whether proofs verify.",
 ["gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "rangeproof.go"],
 [("responses reduced modulo N", "New*Proof"), ("simulated branch", "disjunctive.go NewDisjunctiveProof")])

prop("C06", "Nonces are fresh, independent and full range",
 "Every random scalar behind a proof, commitment or key is drawn anew from the system's entropy source for that one use, uniformly from the whole range below the group order. Proofs made twice from the same inputs share no random commitment, and no random scalar is reused for two purposes within one proof.",
 ["inputs", "histories"], "all sequences of proofs, commitments and keys",
 "Nonce reuse or bias does not change whether a proof verifies, which is all the tests look at.",
 ["gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "rangeproof.go", "crypto.go"],
 [("draws", "rand.Int calls in New*Proof, PedCommit, KeyGen")])

prop("C07", "Range proofs cover exactly the values from 0 to 2^40-1",
 "A range proof can be made for a value if and only if it lies in [0, 2^40); together with the proof the prover returns randomness with which the proof's aggregate commitment opens to exactly that value, and the proof verifies for that commitment and no other. A proof with any number of bits other than 40, or in which any single bit commitment commits to something other than 0 or its power of two, is rejected.",
 ["inputs"], "all values, all bit positions, all shapes and single-bit forgeries of the proof",
 "The tests prove a few values and one out-of-range value; the boundary 2^40, the individual bits and malformed proof shapes are not covered.",
 ["rangeproof.go", "zksigma.go"],
 [("bounds check", "rangeproof.go NewRangeProof"), ("bit commitments and aggregate", "rangeproof.go Verify"), ("powers of two", "zksigma.go generateH2tothe")])

prop("C08", "Serialization round trip: decoding an encoded proof gives the same proof",
 "For every proof type, point (coordinates of up to 32 bytes) and integer (of any sign and any length up to 1024 bytes), including zero and the point at infinity, decoding the encoded bytes yields an equal value and consumes exactly those bytes, and the decoded proof gets the same verdict as the original. Encoding is deterministic and different values have different encodings.",
 ["inputs"], "all proofs, points and integers, honest or not",
 "The tests decode one honest proof per type; short coordinates, negative or zero integers and unusual lengths appear with low probability.",
 ["crypto.go", "gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "rangeproof.go", "wire/common.go"],
 [("field order of writer and reader agree", "Bytes / New*ProofFromBytes"), ("sign byte", "crypto.go WriteBigInt/ReadBigInt")])

prop("C09", "Malformed input yields an error, never a crash or an accepted proof",
 "For every byte string, decoding a proof either succeeds or returns an error: it never crashes, hangs, or allocates memory out of proportion to the input. Every proper prefix of an encoding is an error, and verifying whatever was decoded (or an absent proof) returns a verdict without crashing.",
 ["inputs"], "all byte strings, in particular truncations, corrupted length prefixes and mutated valid encodings",
 "The tests only decode what the encoder produced.",
 ["crypto.go", "wire/common.go", "gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "rangeproof.go"],
 [("error propagation", "New*ProofFromBytes"), ("length limits", "wire/common.go ReadVarBytes"), ("nil and shape checks", "Verify")])

prop("C10", "Variable-length integers and byte arrays follow the wire format exactly",
 "Every unsigned 64-bit integer is written in the shortest of the 1, 3, 5 and 9 byte little-endian forms, its announced size is the number of bytes written, and reading returns the integer and consumes exactly those bytes; non-shortest forms, truncated input and byte arrays longer than the caller's limit are errors. Errors of the underlying reader or writer are always reported, and readers that deliver data in pieces make no difference.",
 ["inputs", "fault_sequences"], "all integers and byte strings, all limits, all ways a reader or writer can split or fail",
 "The repository has no tests for this package.",
 ["wire/common.go"],
 [("canonical form checks", "ReadVarInt/WriteVarInt/VarIntSerializeSize"), ("limit", "ReadVarBytes")])

prop("C11", "Pedersen commitments open exactly and add up",
 "A commitment opens for a value and randomness exactly when it is the point value*G + randomness*H, with both taken modulo the group order, including zero, negative and oversized ones; the same holds for a token with respect to its key. Sums, differences and negations of commitments (or tokens) open to the sums, differences and negations of their values and randomness.",
 ["inputs", "histories"], "all values, randomness, keys and generators",
 "The tests open a few small positive values; the algebra over all residues and the near misses (negated values, one wrong coordinate) are not covered.",
 ["crypto.go"],
 [("commitment equation", "crypto.go PedCommitR, Open, CommitR, VerifyR"), ("comparison", "crypto.go ECPoint.Equal")])

prop("C12", "Point operations obey the group law on every path",
 "Multiplying, adding, subtracting and negating points gives the result of the curve's group law for all points (including the point at infinity, a point and itself, and a point and its negative) and all integer scalars (zero, negative, beyond the group order). The result does not depend on whether a precomputed path for a generator or a general path is taken, nor on the curve and generators configured.",
 ["inputs", "configurations"], "all points and scalars, all curves and generators",
 "The tests compare a few multiples; special points, special scalars and disagreement between the fast and the general paths need exhaustive small groups and an independent oracle.",
 ["crypto.go", "zksigma.go"],
 [("special cases of infinity", "crypto.go Add/Sub/Neg"), ("table dispatch", "crypto.go Mult")])

prop("C13", "The published parameters are consistent with each other",
 "In the parameters the package publishes, G is the curve's base point, H is the generator whose multiples the fast path for H computes, neither is the other's small or publicly derived multiple, and entry i of the powers table is 2^i times G for all 64 entries. The constants of the curve (prime, order, cofactor, size and what is derived from them) are those of secp256k1. The cached zero point and zero integer are zero, and no sequence of operations changes any of these.",
 ["configurations", "histories"], "all parameters and table entries, before and after any calls",
 "Tests use the parameters but never compare them with independently computed ones; tables hold thousands of points.",
 ["zksigma.go", "crypto.go", "btcec/precompute.go", "btcec/secp256k1.go", "btcec/secp256k1H.go"],
 [("initialisation", "zksigma.go init"), ("precomputed tables", "btcec/precompute.go")])

prop("C14", "No call modifies its arguments or shared state",
 "Proving, verifying, committing, encoding, decoding and point arithmetic leave every argument (scalars, points, byte slices including their spare capacity, proofs and parameters) and all package-level state unchanged. Buffers a call returns are the caller's own: writing to them changes no proof and no later result. Nor does a decoded value share memory with the buffer it was decoded from.",
 ["inputs", "histories"], "all exported functions and arguments, all call sequences",
 "Tests do not look at arguments after a call; in-place big-integer arithmetic makes such damage easy and invisible.",
 ["crypto.go", "gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "inequality.go", "rangeproof.go", "wire/common.go", "btcec/btcec.go", "btcec/signature.go", "btcec/ciphering.go"],
 [("fresh big.Int for every result", "throughout")])

prop("C15", "Concurrent use is safe and gives the sequential results",
 "Any mixture of calls running concurrently, sharing parameters, statements, keys and proofs, is free of data races, and every call returns what it would return alone. A temporary buffer handed to a caller's writer is used by nobody else until that write returns.",
 ["schedules"], "all interleavings of calls from any number of goroutines, including re-entrant writers and readers",
 "The tests are sequential; buffer sharing and races depend on the interleaving.",
 ["wire/common.go", "rangeproof.go", "crypto.go", "btcec/btcec.go"],
 [("free list of buffers", "wire/common.go binaryFreeList"), ("goroutine fan-out", "rangeproof.go")],
 state=[("free list", "buffers not in use", "wire/common.go binarySerializer")])

prop("C16", "Entropy failures are reported and never produce a result",
 "If the entropy source fails or runs dry at any point of proving, committing, making a key or encrypting, the call returns an error and no proof, commitment, key or ciphertext; it does not crash, hang or fall back to predictable values. A source that delivers its bytes in pieces makes no difference.",
 ["fault_sequences"], "every position at which the entropy source can fail, for every function that draws randomness",
 "The tests never make the entropy source fail.",
 ["gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "inequality.go", "rangeproof.go", "crypto.go", "btcec/ciphering.go", "wire/common.go"],
 [("error returns", "rand.Int calls in New*Proof, PedCommit")])

prop("C17", "Range proof workers: all schedules agree and every worker ends",
 "Making or verifying a range proof gives the same result in every order in which its parallel workers run or finish, always terminates, and leaves no worker running after it returns, on success, on rejection and on error.",
 ["schedules", "fault_sequences"], "all interleavings of the workers, for honest, corrupted and malformed proofs and failing entropy",
 "A test run samples one schedule per proof on an idle machine and does not look for leftover workers.",
 ["rangeproof.go"],
 [("wait group", "rangeproof.go NewRangeProof"), ("result channel", "rangeproof.go Verify")])

prop("C18", "Ledger histories: audits succeed exactly for the true totals",
 "Over any history of entries (a commitment and a token per participant and transaction), the running sums of commitments and tokens commit to the running sums of the amounts; each entry's consistency proof verifies for its own entry only. A participant can prove a claimed total against the sums exactly when it is the true total modulo the group order, and can prove two totals different exactly when they are.",
 ["histories", "inputs"], "all histories of issues, transfers and audits over several participants, with true and false claims",
 "One test sums a short fixed history; long histories, negative amounts, cancelling entries and false claims are not explored.",
 ["crypto.go", "consistency.go", "equivalence.go", "inequality.go", "abc.go"],
 [("homomorphic sums", "crypto.go Add/Sub"), ("audit proof", "equivalence.go"), ("entry proof", "consistency.go")])

prop("C19", "secp256k1 arithmetic is exact for all points and scalars",
 "Addition, doubling, multiplication by any byte string as scalar, base-point multiplication by either table, and the curve membership test agree with the mathematical definition of secp256k1 for all points and scalars, including infinity, equal and opposite points, scalars of any length and coordinates at the edges of the field representation. The non-adjacent form of a byte string has its value, and no two neighbouring digits of it are both non-zero.",
 ["inputs"], "all points, all scalars and all coordinate values",
 "The field tests cover some limb operations; special cases of the point formulas, the scalar decomposition and the tables are reached by rare inputs only.",
 ["btcec/btcec.go", "btcec/field.go", "btcec/precompute.go", "btcec/secp256k1.go", "btcec/secp256k1H.go"],
 [("Jacobian formulas", "btcec/btcec.go addJacobian/doubleJacobian"), ("endomorphism split and NAF", "btcec/btcec.go splitK, NAF, ScalarMult"), ("field arithmetic", "btcec/field.go")])

prop("C20", "Signatures: made correctly, verified strictly, recovered exactly",
 "Signing is deterministic (RFC 6979), yields a signature with both halves in [1, N-1] and the second at most N/2, and it verifies for that key and (non-empty) hash; a signature verifies only if the ECDSA equation holds for exactly that key and hash. Recovering from a compact signature returns the signer's key and compression flag, and for any other compact input returns an error or a key under which the signature verifies.",
 ["inputs"], "all keys, hashes of any length, signatures and compact encodings",
 "The repository has no tests for signatures.",
 ["btcec/signature.go", "btcec/privkey.go", "btcec/pubkey.go"],
 [("deterministic nonce", "signature.go nonceRFC6979"), ("low S", "signature.go signRFC6979"), ("recovery", "signature.go recoverKeyFromSignature")])

prop("C21", "Keys and signatures parse strictly and round-trip",
 "Parsing accepts exactly the well-formed encodings of public keys (33-byte compressed; 65-byte uncompressed and hybrid; a point on the curve with coordinates in the field) and of signatures (strict DER, or its lenient form), returns the encoded value, and otherwise returns an error without crashing, for every byte string. Serializing and parsing a key or signature gives it back, with the signature's second half made canonical.",
 ["inputs"], "all byte strings; all keys and signatures, including those with leading zero bytes",
 "The repository has no tests for these encodings.",
 ["btcec/pubkey.go", "btcec/signature.go", "btcec/privkey.go"],
 [("length and format checks", "pubkey.go ParsePubKey, signature.go parseSig"), ("padding", "pubkey.go paddedAppend")])

prop("C22", "Encryption round-trips and detects every modification",
 "Decrypting what was encrypted for a key returns the plaintext, for every length including empty and multiples of the block size; both sides of a key agreement derive the same secret. A ciphertext that was modified, truncated or extended in any way, or a different private key, yields an error and no plaintext, and encrypting twice never yields the same ciphertext.",
 ["inputs"], "all keys, plaintexts and modifications of ciphertexts",
 "The repository has no tests for encryption.",
 ["btcec/ciphering.go"],
 [("MAC before decryption", "ciphering.go Decrypt"), ("padding", "ciphering.go addPKCSPadding/removePKCSPadding")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
