From be7c020d989b4fe56dc458cdc89bbb13e1b855e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:26 +0000
Subject: [PATCH 01/20] fix: compare both coordinates in ECPoint.Equal

Equal compared p2.Y with itself, so a point was equal to its own negation:
a Pedersen commitment to (v, r) also opened as (-v, -r), and Mult(-G, s)
returned sG through the precomputed table.
---
 crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 26e8d07..a06b3e7 100644
--- a/crypto.go
+++ b/crypto.go
@@ -76,7 +76,7 @@ var Zero ECPoint // initialized in init()
 
 // Equal returns true if points p (self) and p2 (arg) are the same.
 func (p ECPoint) Equal(p2 ECPoint) bool {
-	if p.X.Cmp(p2.X) == 0 && p2.Y.Cmp(p2.Y) == 0 {
+	if p.X.Cmp(p2.X) == 0 && p.Y.Cmp(p2.Y) == 0 {
 		return true
 	}
 	return false
-- 
2.43.0


From 46b51cefb123d4e4e1db50a0f783c8e81df598d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:26 +0000
Subject: [PATCH 02/20] fix: use the precomputed table's generator as
 TestCurve.H

TestCurve.H was a public multiple of G, so its relation to G was known, and
it was not the generator the H table holds: Mult(H, 1) was not H, and a
commitment made through the curve did not match one made through Mult.
---
 zksigma.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zksigma.go b/zksigma.go
index 77ec75e..f3a81f6 100644
--- a/zksigma.go
+++ b/zksigma.go
@@ -16,7 +16,6 @@ More info on Github
 package zksigma
 
 import (
-	"crypto/sha256"
 	"math/big"
 
 	"github.com/mit-dci/zksigma/btcec"
@@ -47,9 +46,9 @@ func generateH2tothe() []ECPoint {
 }
 
 func init() {
-	s256 := sha256.New()
-	hashedString := s256.Sum([]byte("This is the new random point in zksigma"))
-	HX, HY := btcec.S256().ScalarMult(btcec.S256().Gx, btcec.S256().Gy, hashedString)
+	// H is the generator the precomputed H table was built from (see
+	// getDoublingPointsH); its discrete logarithm to the base G is not known.
+	HX, HY := btcec.S256().ScalarBaseMultH([]byte{1})
 	TestCurve = ZKPCurveParams{
 		C: btcec.S256(),
 		G: ECPoint{btcec.S256().Gx, btcec.S256().Gy},
-- 
2.43.0


From 36df157ae834011fd8b1bfc903a304df32e31489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:27 +0000
Subject: [PATCH 03/20] fix: use the generator tables in Mult only for the
 tables' generators

Mult(p, s) looked p = zkpcp.G and p = zkpcp.H up in tables of secp256k1's own
generators, so with other generators it returned a multiple of the wrong
point, and with another curve it panicked.
---
 crypto.go  | 8 +++++---
 zksigma.go | 4 ++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crypto.go b/crypto.go
index a06b3e7..067d418 100644
--- a/crypto.go
+++ b/crypto.go
@@ -95,13 +95,15 @@ func (zkpcp ZKPCurveParams) Mult(p ECPoint, s *big.Int) ECPoint {
 	// 	logStuff("Mult: Trying to multiple with zero-point!\n")
 	// 	return p
 	// } else
-	if p.Equal(zkpcp.G) {
+	// The precomputed tables hold multiples of the curve's own generators,
+	// which are not necessarily the G and H of zkpcp.
+	if p.Equal(ECPoint{zkpcp.C.Params().Gx, zkpcp.C.Params().Gy}) {
 		X, Y := zkpcp.C.ScalarBaseMult(modS.Bytes())
 		return ECPoint{X, Y}
 	}
 
-	if p.Equal(zkpcp.H) {
-		X, Y := zkpcp.C.(*btcec.KoblitzCurve).ScalarBaseMultH(modS.Bytes())
+	if curve, ok := zkpcp.C.(*btcec.KoblitzCurve); ok && p.Equal(tableH) {
+		X, Y := curve.ScalarBaseMultH(modS.Bytes())
 		return ECPoint{X, Y}
 	}
 
diff --git a/zksigma.go b/zksigma.go
index f3a81f6..3cbe0ad 100644
--- a/zksigma.go
+++ b/zksigma.go
@@ -36,6 +36,9 @@ const (
 // passed into the proof functions. We just test with the same params that ZKLedger uses.
 var TestCurve ZKPCurveParams
 
+// tableH is the generator whose multiples ScalarBaseMultH looks up.
+var tableH ECPoint
+
 func generateH2tothe() []ECPoint {
 	Hslice := make([]ECPoint, 64)
 	for i := range Hslice {
@@ -49,6 +52,7 @@ func init() {
 	// H is the generator the precomputed H table was built from (see
 	// getDoublingPointsH); its discrete logarithm to the base G is not known.
 	HX, HY := btcec.S256().ScalarBaseMultH([]byte{1})
+	tableH = ECPoint{HX, HY}
 	TestCurve = ZKPCurveParams{
 		C: btcec.S256(),
 		G: ECPoint{btcec.S256().Gx, btcec.S256().Gy},
-- 
2.43.0


From 1d2b21d53269264b69ec5f505605740c1f52e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 04/20] fix: reduce the disjunctive proof's response modulo N

Unreduced, the response of the proved side was about twice as long as the
simulated one, which told the sides apart, and dividing it by the published
challenge share gave the secret x.
---
 disjunctive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/disjunctive.go b/disjunctive.go
index a9e1a87..c695f77 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -128,6 +128,7 @@ func NewDisjunctiveProof(
 	deltaC.Mod(deltaC, zkpcp.C.Params().N)
 
 	s := new(big.Int).Add(u1, new(big.Int).Mul(deltaC, modValue))
+	s.Mod(s, zkpcp.C.Params().N)
 
 	// Look at mapping given in block comment above
 	if option == Left {
-- 
2.43.0


From 2f2d8ffbca3462196fa08e1c5c579fcd033544c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:29 +0000
Subject: [PATCH 05/20] fix: reduce the ABC proof's response l modulo N

Unreduced, l divided by the published challenge gave uc - v*ub as an integer,
whose size tells the size of the committed value.
---
 abc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abc.go b/abc.go
index f39f5b5..c5fea04 100644
--- a/abc.go
+++ b/abc.go
@@ -157,6 +157,7 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 	// l = u3 + (uc - v * ub) * chal
 	temp1 := new(big.Int).Sub(uc, new(big.Int).Mul(value, ub))
 	l := new(big.Int).Add(u3, new(big.Int).Mul(temp1, Challenge))
+	l = new(big.Int).Mod(l, zkpcp.C.Params().N)
 
 	return &ABCProof{
 		B,
-- 
2.43.0


From 4c3d0b2258c661026135c7d8ba9a4638add2b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:30 +0000
Subject: [PATCH 06/20] fix: reduce the range proof's responses modulo N

Unreduced, the response for a zero bit was about 768 bits long and the one
for a one bit about 512, so a proof told its reader every bit of the value.
---
 rangeproof.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rangeproof.go b/rangeproof.go
index 4d7da9c..0a68ccf 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -139,12 +139,14 @@ func proofGenB(zkpcp ZKPCurveParams,
 		// s = k + (kValues[i] * e0) * inverse ei
 		data.kScalars[idx] = j.Add(
 			j, new(big.Int).Mul(data.kScalars[idx], new(big.Int).Mul(e0, inverseEI)))
+		data.kScalars[idx].Mod(data.kScalars[idx], zkpcp.C.Params().N)
 
 	} else { // bit is 1, don't do anything
 		// s is k + e0*v
 
 		data.kScalars[idx] = new(big.Int).Add(
 			data.kScalars[idx], new(big.Int).Mul(e0, data.vScalars[idx]))
+		data.kScalars[idx].Mod(data.kScalars[idx], zkpcp.C.Params().N)
 	}
 
 	return nil
-- 
2.43.0


From c41396f0a2fa8477c197d0bb6d0173325ecdd7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:22 +0000
Subject: [PATCH 07/20] fix: refuse a range proof for the value 2^40

The proof commits to 40 bits, so 2^40 is out of range: the prover returned
a proof for the value 0 instead of an error.
---
 rangeproof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 0a68ccf..33b6932 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -160,8 +160,8 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// If our value is in range, then sum of commitments would equal original commitment
 	// else, because of truncation, it will be deemed out of range not be equal
 
-	if value.Cmp(big.NewInt(1099511627776)) == 1 {
-		return nil, nil, fmt.Errorf("val %s too big, can only prove up to 1099511627776\n", value.String())
+	if value.Cmp(big.NewInt(1099511627776)) >= 0 {
+		return nil, nil, fmt.Errorf("val %s too big, can only prove values below 1099511627776\n", value.String())
 	}
 
 	proofSize := 40
-- 
2.43.0


From 4559c74671810faf60d8b7fd7c8eb57e13746ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 08/20] fix: make range proofs complete for every curve and
 generator

The verifier compared the prover's e0, which is reduced modulo N, with an
unreduced hash, and the prover used multiples of the curve's base point
where the verifier uses HPoints: honest proofs over a curve whose order is
noticeably below 2^256, or over another generator G, were rejected.
---
 rangeproof.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 33b6932..4c102a6 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -114,16 +114,11 @@ func proofGenB(zkpcp ZKPCurveParams,
 			return err
 		}
 
-		m2 := new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(idx)), zkpcp.C.Params().N)
-		//		m2 := big.NewInt(1 << uint(idx))
-		em2 := new(big.Int).Mul(e0, m2)
-		em2.Mod(em2, zkpcp.C.Params().N)
-
-		rhsX, rhsY := zkpcp.C.ScalarBaseMult(em2.Bytes())
+		rhs := zkpcp.Mult(zkpcp.HPoints[idx], e0)
 
 		lhs := zkpcp.Mult(zkpcp.H, j)
 
-		totX, totY := zkpcp.C.Add(lhs.X, lhs.Y, rhsX, rhsY)
+		totX, totY := zkpcp.C.Add(lhs.X, lhs.Y, rhs.X, rhs.Y)
 
 		hash := sha256.Sum256(append(totX.Bytes(), totY.Bytes()...))
 		ei := new(big.Int).SetBytes(hash[:]) // get ei
@@ -308,7 +303,10 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 	}
 	calculatedE0 := rHash.Sum(nil)
 
-	if proof.ProofE.Cmp(new(big.Int).SetBytes(calculatedE0[:])) != 0 {
+	e0 := new(big.Int).SetBytes(calculatedE0[:])
+	e0.Mod(e0, zkpcp.C.Params().N)
+
+	if proof.ProofE.Cmp(e0) != 0 {
 		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("calculatedE0 does not match")}
 	}
 
-- 
2.43.0


From b4a0cdfb1dd36fe1549a40c2f70f63d3a2795782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 09/20] fix: check the shape of a range proof before verifying
 it

A proof with more than 64 tuples made a verifier goroutine index past
HPoints, which killed the process; one with 41 to 64 tuples was accepted
for values far above 2^40. A missing ProofE crashed as well, and an early
return left the goroutines already started blocked forever.
---
 rangeproof.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 4c102a6..b164991 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -17,6 +17,9 @@ import (
 ///////////////////////
 // RANGE PROOFS
 
+// rangeProofSize is the number of bits of the range: values in [0, 2^40) can be proved
+const rangeProofSize = 40
+
 type rangeProofTuple struct {
 	C ECPoint
 	S *big.Int
@@ -159,9 +162,9 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 		return nil, nil, fmt.Errorf("val %s too big, can only prove values below 1099511627776\n", value.String())
 	}
 
-	proofSize := 40
+	proofSize := rangeProofSize
 	// check to see if our value is out of range
-	if proofSize > 40 || value.Cmp(BigZero) == -1 {
+	if proofSize > len(zkpcp.HPoints) || value.Cmp(BigZero) == -1 {
 		//if so, then we can't play
 		return nil, nil, fmt.Errorf("** Trying to get a value that is out of range! Range Proof will not work!\n")
 	}
@@ -265,6 +268,17 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 
 	proofLength := len(proofs)
 
+	// fewer tuples or more tuples prove another range
+	if proofLength != rangeProofSize {
+		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("proof has %d tuples instead of %d", proofLength, rangeProofSize)}
+	}
+	if len(zkpcp.HPoints) < proofLength {
+		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("not enough HPoints: %d", len(zkpcp.HPoints))}
+	}
+	if proof.ProofE == nil {
+		return false, &errorProof{"RangeProof.Verify", "proof has nil ProofE"}
+	}
+
 	Rpoints := make([]ECPoint, len(proofs))
 
 	totalPoint := ECPoint{big.NewInt(0), big.NewInt(0)}
@@ -280,7 +294,9 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil scalar", i)}
 
 		}
+	}
 
+	for i := 0; i < proofLength; i++ {
 		// give proof to the verify gorouting
 		go verifyGen(zkpcp, i, proof.ProofE, proof.ProofTuples[i], resultBox)
 	}
-- 
2.43.0


From 55ec817dfa60b5c1845c445d77cfee9018479476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:01 +0000
Subject: [PATCH 10/20] fix: report entropy failures in NewRangeProof

The errors of the goroutines were dropped and the missing scalars then
crashed the process.
---
 rangeproof.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index b164991..978f578 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -49,12 +49,11 @@ type proverInternalData struct {
 	vScalars []*big.Int
 }
 
-// proofGenA takes in a waitgroup, index and bit
+// proofGenA takes in an index and bit
 // returns an Rpoint and Cpoint, and the k value bigint
 func proofGenA(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, s *proverInternalData) error {
+	idx int, bit bool, s *proverInternalData) error {
 
-	defer wg.Done()
 	var err error
 
 	//	R := s.Rpoints[idx]
@@ -104,11 +103,9 @@ func proofGenA(zkpcp ZKPCurveParams,
 	return nil
 }
 
-// proofGenB takes waitgroup, index, bit, along with the data to operate on
+// proofGenB takes index, bit, along with the data to operate on
 func proofGenB(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
-
-	defer wg.Done()
+	idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
 
 	if !bit {
 		// choose a random value from the integers mod prime
@@ -181,12 +178,20 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 
 	//	 do the loop bValue times
 	var wg sync.WaitGroup
+	errs := make([]error, proofSize)
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
-		go proofGenA(zkpcp, &wg, i, value.Bit(i) == 1, stuff)
+		go func(i int) {
+			defer wg.Done()
+			errs[i] = proofGenA(zkpcp, i, value.Bit(i) == 1, stuff)
+		}(i)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	// hash concat of all R values
 	rHash := sha256.New()
@@ -206,11 +211,17 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// go through all 64 part B
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
-		go proofGenB(zkpcp,
-			&wg, i, value.Bit(i) == 1, e0, stuff)
+		go func(i int) {
+			defer wg.Done()
+			errs[i] = proofGenB(zkpcp, i, value.Bit(i) == 1, e0, stuff)
+		}(i)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	for i := 0; i < proofSize; i++ {
 		//		add up to get vTotal scalar
-- 
2.43.0


From 4fec326cc6be8395b701ad1fb82fd64c645c5659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:27 +0000
Subject: [PATCH 11/20] fix: enforce the size limit in ReadVarBytes

The documented maxAllowed was ignored, so a few bytes of input could make
a decoder allocate an arbitrary amount of memory or panic. The limit that
ReadBigInt passed was too small for what WriteBigInt writes, and an integer
without a sign byte made it panic.
---
 crypto.go      | 10 +++++++++-
 wire/common.go |  8 ++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 067d418..32747e1 100644
--- a/crypto.go
+++ b/crypto.go
@@ -4,6 +4,7 @@ import (
 	"crypto/elliptic"
 	"crypto/rand"
 	"crypto/sha256"
+	"errors"
 	"flag"
 	"fmt"
 	"io"
@@ -177,6 +178,9 @@ func ReadECPoint(r io.Reader) (ECPoint, error) {
 	return ECPoint{X: big.NewInt(0).SetBytes(xBytes), Y: big.NewInt(0).SetBytes(yBytes)}, nil
 }
 
+// maxBigIntBytes limits the size of the integers ReadBigInt accepts
+const maxBigIntBytes = 1024
+
 // WriteBigInt write a big.Int to io.Writer w
 func WriteBigInt(w io.Writer, b *big.Int) error {
 	neg := []byte{0x00}
@@ -189,10 +193,14 @@ func WriteBigInt(w io.Writer, b *big.Int) error {
 
 // ReadBigInt reads a big.Int from io.Reader r
 func ReadBigInt(r io.Reader) (*big.Int, error) {
-	bBytes, err := wire.ReadVarBytes(r, 32, "")
+	// the sign byte is followed by the absolute value
+	bBytes, err := wire.ReadVarBytes(r, 1+maxBigIntBytes, "big.Int")
 	if err != nil {
 		return nil, err
 	}
+	if len(bBytes) == 0 {
+		return nil, errors.New("ReadBigInt: the sign byte is missing")
+	}
 	newInt := big.NewInt(0).SetBytes(bBytes[1:])
 	if bBytes[0] == 0x01 {
 		newInt.Neg(newInt)
diff --git a/wire/common.go b/wire/common.go
index 94db5cb..659c075 100644
--- a/wire/common.go
+++ b/wire/common.go
@@ -294,6 +294,14 @@ func ReadVarBytes(r io.Reader, maxAllowed uint32,
 		return nil, err
 	}
 
+	// Prevent byte array larger than the max message size.  It would
+	// be possible to cause memory exhaustion and panics without a sane
+	// upper bound on this count.
+	if count > uint64(maxAllowed) {
+		return nil, fmt.Errorf("ReadVarBytes: %s is larger than the max allowed size "+
+			"[count %d, max %d]", fieldName, count, maxAllowed)
+	}
+
 	b := make([]byte, count)
 	_, err = io.ReadFull(r, b)
 	if err != nil {
-- 
2.43.0


From ba16790d425fba523896f9970dce1674c9ab17cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:28 +0000
Subject: [PATCH 12/20] fix: report malformed input when decoding proofs

The decoders ignored read errors and returned half-filled proofs, on which
Verify crashed; the range proof decoder also allocated as many tuples as
the input asked for.
---
 consistency.go | 21 ++++++++++++++++-----
 disjunctive.go | 29 ++++++++++++++++++++++-------
 equivalence.go | 17 +++++++++++++----
 gspfs.go       | 17 +++++++++++++----
 rangeproof.go  | 25 ++++++++++++++++++++-----
 5 files changed, 84 insertions(+), 25 deletions(-)

diff --git a/consistency.go b/consistency.go
index f7a5b08..64e8f90 100644
--- a/consistency.go
+++ b/consistency.go
@@ -150,10 +150,21 @@ func (proof *ConsistencyProof) Bytes() []byte {
 func NewConsistencyProofFromBytes(b []byte) (*ConsistencyProof, error) {
 	proof := new(ConsistencyProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	if proof.T1, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.T2, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.Challenge, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S1, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S2, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/disjunctive.go b/disjunctive.go
index c695f77..0432434 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -224,12 +224,27 @@ func (djProof *DisjunctiveProof) Bytes() []byte {
 func NewDisjunctiveProofFromBytes(b []byte) (*DisjunctiveProof, error) {
 	proof := new(DisjunctiveProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.C, _ = ReadBigInt(buf)
-	proof.C1, _ = ReadBigInt(buf)
-	proof.C2, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	if proof.T1, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.T2, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.C, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.C1, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.C2, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S1, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S2, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/equivalence.go b/equivalence.go
index d56fdef..c7786e0 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -138,9 +138,18 @@ func (proof *EquivalenceProof) Bytes() []byte {
 func NewEquivalenceProofFromBytes(b []byte) (*EquivalenceProof, error) {
 	proof := new(EquivalenceProof)
 	buf := bytes.NewBuffer(b)
-	proof.UG, _ = ReadECPoint(buf)
-	proof.UH, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
+	var err error
+	if proof.UG, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.UH, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.Challenge, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.HiddenValue, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/gspfs.go b/gspfs.go
index a0d27a3..245cf02 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -114,9 +114,18 @@ func (proof *GSPFSProof) Bytes() []byte {
 func NewGSPFSProofFromBytes(b []byte) (*GSPFSProof, error) {
 	proof := new(GSPFSProof)
 	buf := bytes.NewBuffer(b)
-	proof.Base, _ = ReadECPoint(buf)
-	proof.RandCommit, _ = ReadECPoint(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
+	var err error
+	if proof.Base, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.RandCommit, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.HiddenValue, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.Challenge, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/rangeproof.go b/rangeproof.go
index 978f578..79a9368 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -369,14 +369,29 @@ func NewRangeProofFromBytes(b []byte) (*RangeProof, error) {
 	proof := new(RangeProof)
 	buf := bytes.NewBuffer(b)
 
-	proof.ProofAggregate, _ = ReadECPoint(buf)
-	proof.ProofE, _ = ReadBigInt(buf)
-	numTuples, _ := wire.ReadVarInt(buf)
+	var err error
+	if proof.ProofAggregate, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.ProofE, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	numTuples, err := wire.ReadVarInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	if numTuples > rangeProofSize {
+		return nil, &errorProof{"NewRangeProofFromBytes", fmt.Sprintf("too many tuples: %d", numTuples)}
+	}
 	proof.ProofTuples = make([]rangeProofTuple, numTuples)
 	for i := uint64(0); i < numTuples; i++ {
 		proof.ProofTuples[i] = rangeProofTuple{}
-		proof.ProofTuples[i].C, _ = ReadECPoint(buf)
-		proof.ProofTuples[i].S, _ = ReadBigInt(buf)
+		if proof.ProofTuples[i].C, err = ReadECPoint(buf); err != nil {
+			return nil, err
+		}
+		if proof.ProofTuples[i].S, err = ReadBigInt(buf); err != nil {
+			return nil, err
+		}
 	}
 
 	return proof, nil
-- 
2.43.0


From 9e0765b8b254879892ce0a38fce3571cfae7a888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:50 +0000
Subject: [PATCH 13/20] fix: return an error when verifying a nil ABCProof

All the other proof types do; this one crashed.
---
 abc.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/abc.go b/abc.go
index c5fea04..58e1155 100644
--- a/abc.go
+++ b/abc.go
@@ -3,6 +3,7 @@ package zksigma
 import (
 	"bytes"
 	"crypto/rand"
+	"fmt"
 	"math/big"
 
 	"github.com/mit-dci/zksigma/wire"
@@ -173,6 +174,10 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 // Verify checks if ABCProof aProof with appropriate commits CM and CMTok is correct
 func (aProof *ABCProof) Verify(zkpcp ZKPCurveParams, CM, CMTok ECPoint) (bool, error) {
 
+	if aProof == nil {
+		return false, &errorProof{"ABCProof.Verify", fmt.Sprintf("passed proof is nil")}
+	}
+
 	// Notes in ABCProof talk about why the Disjunc takes in this specific input even though it looks non-intuitive
 	// Here it is important that you subtract exactly 1 G from the aProof.C because that only allows for you to prove c = 1!
 	_, status := aProof.disjuncAC.Verify(zkpcp, CM, CMTok, zkpcp.H, zkpcp.Sub(aProof.C, zkpcp.G))
-- 
2.43.0


From 7f80620d8af495ffabc49ce81377281bc70fef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:50 +0000
Subject: [PATCH 14/20] fix: compare values modulo N in the ABC and inequality
 provers

A value or secret key that is a nonzero multiple of N has no inverse: the
provers crashed instead of refusing the false statement.
---
 abc.go        |  7 +++++++
 inequality.go | 10 ++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/abc.go b/abc.go
index 58e1155..6af766d 100644
--- a/abc.go
+++ b/abc.go
@@ -63,6 +63,13 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 
 	// We cannot check that CM log is actually the value, but the verification should catch that
 
+	// inv(v) and inv(sk) only depend on, and only exist for, the residues modulo N
+	value = new(big.Int).Mod(value, zkpcp.C.Params().N)
+	sk = new(big.Int).Mod(sk, zkpcp.C.Params().N)
+	if sk.Cmp(BigZero) == 0 {
+		return &ABCProof{}, &errorProof{"ABCProof", "secret key has no inverse"}
+	}
+
 	u1, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
 	if err != nil {
 		return nil, err
diff --git a/inequality.go b/inequality.go
index 67459fa..5fc6e10 100644
--- a/inequality.go
+++ b/inequality.go
@@ -13,13 +13,15 @@ type InequalityProof ABCProof
 // There is no Inequality verify since this generates an ABCProof, so just use ABCVerify
 func NewInequalityProof(zkpcp ZKPCurveParams, A, B, CMTokA, CMTokB ECPoint, a, b, sk *big.Int) (*InequalityProof, error) {
 
-	if a.Cmp(b) == 0 {
-		return nil, &errorProof{"InequalityProve", "a and b should not be equal..."}
-	}
-
 	// should I check if a > b? I think that shouldn't be a problem
 	// generate a-b for ABCProof, D will be created  commitment
 	value := new(big.Int).Sub(a, b)
+
+	// a and b are committed to modulo N
+	if new(big.Int).Mod(value, zkpcp.C.Params().N).Cmp(BigZero) == 0 {
+		return nil, &errorProof{"InequalityProve", "a and b should not be equal..."}
+	}
+
 	CM := zkpcp.Sub(A, B)
 
 	CMTok := zkpcp.Sub(CMTokA, CMTokB)
-- 
2.43.0


From d8d7f6d65666e411ee8586723d9d3456febd4de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:51 +0000
Subject: [PATCH 15/20] fix: hash the base point into the challenge of a
 GSPFSProof

The documentation says c = HASH(G, A, T1), but the base was left out: since
the base is part of the proof, a valid proof for any A could be made
without knowing x by choosing the base after the challenge.
---
 gspfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gspfs.go b/gspfs.go
index 245cf02..1c1834e 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -59,7 +59,7 @@ func NewGSPFSProofBase(zkpcp ZKPCurveParams, base, A ECPoint, x *big.Int) (*GSPF
 	uG := zkpcp.Mult(base, u)
 
 	// generate hashed string challenge
-	c := GenerateChallenge(zkpcp, A.Bytes(), uG.Bytes())
+	c := GenerateChallenge(zkpcp, base.Bytes(), A.Bytes(), uG.Bytes())
 
 	// v = u - c * x
 	v := new(big.Int).Sub(u, new(big.Int).Mul(c, modValue))
@@ -76,7 +76,7 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 	}
 
 	// A = xG and RandCommit = uG
-	testC := GenerateChallenge(zkpcp, A.Bytes(), proof.RandCommit.Bytes())
+	testC := GenerateChallenge(zkpcp, proof.Base.Bytes(), A.Bytes(), proof.RandCommit.Bytes())
 
 	if testC.Cmp(proof.Challenge) != 0 {
 		return false, &errorProof{"GSPFSProof.Verify", "calculated challenge and proof's challenge do not agree!"}
-- 
2.43.0


From 3fb8a88c73fadb26331489426b95d1a4ad219965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:17 +0000
Subject: [PATCH 16/20] fix: check the length byte of a signature without
 overflow

siglen+2 was computed in a byte, so lengths 254 and 255 (and lengths below
the minimum) passed the check and parsing indexed out of range.
---
 btcec/signature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/btcec/signature.go b/btcec/signature.go
index 6026c42..1493c38 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -110,9 +110,9 @@ func parseSig(sigStr []byte, curve elliptic.Curve, der bool) (*Signature, error)
 	}
 	index++
 	// length of remaining message
-	siglen := sigStr[index]
+	siglen := int(sigStr[index])
 	index++
-	if int(siglen+2) > len(sigStr) {
+	if siglen+2 > len(sigStr) || siglen+2 < 8 {
 		return nil, errors.New("malformed signature: bad length")
 	}
 	// trim the slice we're working on so we only look at what matters.
-- 
2.43.0


From db7223dc448130b6a4ae2ab698a6dc5eb1623f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 17/20] fix: reject compact signatures that no key can have
 made

RecoverCompact crashed when R was 0 modulo N, and for an R that is not the
x coordinate of a point, or an S outside [1, N-1], it returned a key (not
always on the curve) that does not verify the signature.
---
 btcec/pubkey.go    | 7 +++++++
 btcec/signature.go | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index b749177..519438f 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -45,6 +45,13 @@ func decompressPoint(curve *KoblitzCurve, x *big.Int, ybit bool) (*big.Int, erro
 	if ybit != isOdd(y) {
 		return nil, fmt.Errorf("ybit doesn't match oddness")
 	}
+
+	// Check that y is a square root of x^3 + B.
+	y2 := new(big.Int).Mul(y, y)
+	y2.Mod(y2, curve.Params().P)
+	if y2.Cmp(x3.Mod(x3, curve.Params().P)) != 0 {
+		return nil, fmt.Errorf("invalid square root")
+	}
 	return y, nil
 }
 
diff --git a/btcec/signature.go b/btcec/signature.go
index 1493c38..b7521c6 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -327,6 +327,9 @@ func recoverKeyFromSignature(curve *KoblitzCurve, sig *Signature, msg []byte,
 	// TODO: this would be faster if we did a mult and add in one
 	// step to prevent the jacobian conversion back and forth.
 	Qx, Qy := curve.Add(sRx, sRy, minuseGx, minuseGy)
+	if Qx.Sign() == 0 && Qy.Sign() == 0 {
+		return nil, errors.New("recovered key is the point at infinity")
+	}
 
 	return &PublicKey{
 		Curve: curve,
@@ -403,6 +406,12 @@ func RecoverCompact(curve *KoblitzCurve, signature,
 		R: new(big.Int).SetBytes(signature[1 : bitlen+1]),
 		S: new(big.Int).SetBytes(signature[bitlen+1:]),
 	}
+	if sig.R.Sign() == 0 || sig.R.Cmp(curve.N) >= 0 {
+		return nil, false, errors.New("signature R isn't in [1, N-1]")
+	}
+	if sig.S.Sign() == 0 || sig.S.Cmp(curve.N) >= 0 {
+		return nil, false, errors.New("signature S isn't in [1, N-1]")
+	}
 	// The iteration used here was encoded
 	key, err := recoverKeyFromSignature(curve, sig, hash, iteration, false)
 	if err != nil {
-- 
2.43.0


From 30c39a0ee9aaf46ef4c0f605d258ee79e7aa61c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:19 +0000
Subject: [PATCH 18/20] fix: reject 0x05 as the format of an uncompressed
 public key

---
 btcec/pubkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index 519438f..76e3399 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -94,6 +94,10 @@ func ParsePubKey(pubKeyStr []byte, curve *KoblitzCurve) (key *PublicKey, err err
 
 		pubkey.X = new(big.Int).SetBytes(pubKeyStr[1:33])
 		pubkey.Y = new(big.Int).SetBytes(pubKeyStr[33:])
+		if format == pubkeyUncompressed && ybit {
+			return nil, fmt.Errorf("invalid magic in pubkey str: "+
+				"%d", pubKeyStr[0])
+		}
 		// hybrid keys have extra information, make use of it.
 		if format == pubkeyHybrid && ybit != isOdd(pubkey.Y) {
 			return nil, fmt.Errorf("ybit doesn't match oddness")
-- 
2.43.0


From 98c5a73bd10c5b37f87fd3ad2541b9ae176f9269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 19/20] fix: do not write the padding into the caller's buffer

Encrypt overwrote the bytes behind the plaintext when the slice had spare
capacity.
---
 btcec/ciphering.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/btcec/ciphering.go b/btcec/ciphering.go
index b18c9b7..30ec9ad 100644
--- a/btcec/ciphering.go
+++ b/btcec/ciphering.go
@@ -201,7 +201,8 @@ func Decrypt(priv *PrivateKey, in []byte) ([]byte, error) {
 func addPKCSPadding(src []byte) []byte {
 	padding := aes.BlockSize - len(src)%aes.BlockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	// src belongs to the caller, do not write behind its end
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 // removePKCSPadding removes padding from data that was added with addPKCSPadding
-- 
2.43.0


From 6672644f1838e637454dd22633c6087e32c32c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:50 +0000
Subject: [PATCH 20/20] fix: verify proofs only over points of the curve

The verifiers accepted any coordinates: an off-curve point of small order
passes the verification equations for false statements, a coordinate of
more than 32 bytes crashed the field arithmetic, and missing points or
scalars were dereferenced.
---
 abc.go         |  7 +++++++
 consistency.go |  7 +++++++
 crypto.go      | 24 ++++++++++++++++++++++++
 disjunctive.go |  7 +++++++
 equivalence.go |  7 +++++++
 gspfs.go       |  6 ++++++
 rangeproof.go  |  9 +++++++--
 7 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/abc.go b/abc.go
index 6af766d..b237eca 100644
--- a/abc.go
+++ b/abc.go
@@ -185,6 +185,13 @@ func (aProof *ABCProof) Verify(zkpcp ZKPCurveParams, CM, CMTok ECPoint) (bool, e
 		return false, &errorProof{"ABCProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	err := zkpcp.checkInput("ABCProof.Verify",
+		[]ECPoint{CM, CMTok, aProof.B, aProof.C, aProof.T1, aProof.T2},
+		aProof.Challenge, aProof.j, aProof.k, aProof.l)
+	if err != nil {
+		return false, err
+	}
+
 	// Notes in ABCProof talk about why the Disjunc takes in this specific input even though it looks non-intuitive
 	// Here it is important that you subtract exactly 1 G from the aProof.C because that only allows for you to prove c = 1!
 	_, status := aProof.disjuncAC.Verify(zkpcp, CM, CMTok, zkpcp.H, zkpcp.Sub(aProof.C, zkpcp.G))
diff --git a/consistency.go b/consistency.go
index 64e8f90..f448006 100644
--- a/consistency.go
+++ b/consistency.go
@@ -95,6 +95,13 @@ func (conProof *ConsistencyProof) Verify(
 		return false, &errorProof{"ConsistencyProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	err := zkpcp.checkInput("ConsistencyProof.Verify",
+		[]ECPoint{CM, CMTok, PubKey, conProof.T1, conProof.T2},
+		conProof.Challenge, conProof.S1, conProof.S2)
+	if err != nil {
+		return false, err
+	}
+
 	// Regenerate challenge string
 	Challenge := GenerateChallenge(zkpcp, zkpcp.G.Bytes(), zkpcp.H.Bytes(),
 		CM.Bytes(), CMTok.Bytes(),
diff --git a/crypto.go b/crypto.go
index 32747e1..1adeb34 100644
--- a/crypto.go
+++ b/crypto.go
@@ -151,6 +151,30 @@ func (zkpcp ZKPCurveParams) Neg(p ECPoint) ECPoint {
 	return ECPoint{p.X, modValue}
 }
 
+// checkInput returns an error unless all the points are points of the curve
+// (or the point at infinity) and all the scalars are there.  The arithmetic is
+// only meaningful, and the proofs are only sound, for such input.
+func (zkpcp ZKPCurveParams) checkInput(t string, points []ECPoint, scalars ...*big.Int) error {
+	P := zkpcp.C.Params().P
+	for _, p := range points {
+		if p.X == nil || p.Y == nil {
+			return &errorProof{t, "a point is missing"}
+		}
+		if p.X.Sign() < 0 || p.X.Cmp(P) >= 0 || p.Y.Sign() < 0 || p.Y.Cmp(P) >= 0 {
+			return &errorProof{t, "a coordinate is out of range"}
+		}
+		if !p.Equal(Zero) && !zkpcp.C.IsOnCurve(p.X, p.Y) {
+			return &errorProof{t, "a point is not on the curve"}
+		}
+	}
+	for _, s := range scalars {
+		if s == nil {
+			return &errorProof{t, "a scalar is missing"}
+		}
+	}
+	return nil
+}
+
 func (p ECPoint) Bytes() []byte {
 	return append(p.X.Bytes(), p.Y.Bytes()...)
 }
diff --git a/disjunctive.go b/disjunctive.go
index 0432434..2751b6f 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -160,6 +160,13 @@ func (djProof *DisjunctiveProof) Verify(
 		return false, &errorProof{"DisjunctiveProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	err := zkpcp.checkInput("DisjunctiveProof.Verify",
+		[]ECPoint{Base1, Result1, Base2, Result2, djProof.T1, djProof.T2},
+		djProof.C, djProof.C1, djProof.C2, djProof.S1, djProof.S2)
+	if err != nil {
+		return false, err
+	}
+
 	T1 := djProof.T1
 	T2 := djProof.T2
 	C := djProof.C
diff --git a/equivalence.go b/equivalence.go
index c7786e0..1f2ee49 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -88,6 +88,13 @@ func (eqProof *EquivalenceProof) Verify(
 		return false, &errorProof{"EquivalenceVerify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	err := zkpcp.checkInput("EquivalenceVerify",
+		[]ECPoint{Base1, Result1, Base2, Result2, eqProof.UG, eqProof.UH},
+		eqProof.Challenge, eqProof.HiddenValue)
+	if err != nil {
+		return false, err
+	}
+
 	// Regenerate challenge string
 	c := GenerateChallenge(zkpcp, Base1.Bytes(), Result1.Bytes(),
 		Base2.Bytes(), Result2.Bytes(),
diff --git a/gspfs.go b/gspfs.go
index 1c1834e..a54b2e4 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -75,6 +75,12 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 		return false, &errorProof{"GSPFSProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	err := zkpcp.checkInput("GSPFSProof.Verify", []ECPoint{A, proof.Base, proof.RandCommit},
+		proof.HiddenValue, proof.Challenge)
+	if err != nil {
+		return false, err
+	}
+
 	// A = xG and RandCommit = uG
 	testC := GenerateChallenge(zkpcp, proof.Base.Bytes(), A.Bytes(), proof.RandCommit.Bytes())
 
diff --git a/rangeproof.go b/rangeproof.go
index 79a9368..0f3f03e 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -286,8 +286,9 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 	if len(zkpcp.HPoints) < proofLength {
 		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("not enough HPoints: %d", len(zkpcp.HPoints))}
 	}
-	if proof.ProofE == nil {
-		return false, &errorProof{"RangeProof.Verify", "proof has nil ProofE"}
+	err := zkpcp.checkInput("RangeProof.Verify", []ECPoint{comm, proof.ProofAggregate}, proof.ProofE)
+	if err != nil {
+		return false, err
 	}
 
 	Rpoints := make([]ECPoint, len(proofs))
@@ -305,6 +306,10 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil scalar", i)}
 
 		}
+		err = zkpcp.checkInput("RangeProof.Verify", []ECPoint{proof.ProofTuples[i].C})
+		if err != nil {
+			return false, err
+		}
 	}
 
 	for i := 0; i < proofLength; i++ {
-- 
2.43.0

