From 33f07940fff07938fc881c54291237a2072d8de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 01/12] fix: read the right input of a wire at its own offset
 when assigning

Layer.Evaluate multiplied the already scaled right index by N again, which
panicked or read another wire for every batch of several instances per chunk
whose wires have R > 0.
---
 circuit/layers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit/layers.go b/circuit/layers.go
index dff0d99..4d41502 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -88,7 +88,7 @@ func (l *Layer) Evaluate(inputs [][]fr.Element, nCore int) [][]fr.Element {
 				wRN := w.R * N
 				for h := 0; h < N; h++ {
 					// Runs the gate evaluator
-					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN*N+h])
+					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
 					subRes[wON+h].Add(&subRes[wON+h], &tmp)
 				}
 			}
-- 
2.43.0


From 9b1e4724f83ccb3895d1be2e568e47f90c52c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 02/12] fix: evaluate chunked tables made of a single chunk

With one chunk there is nothing to recombine and the result slice stayed nil.
---
 polynomial/chunked.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polynomial/chunked.go b/polynomial/chunked.go
index b31a98b..2204aff 100644
--- a/polynomial/chunked.go
+++ b/polynomial/chunked.go
@@ -36,7 +36,7 @@ func chunkedEvalRecombine(bkts []BookKeepingTable, qs []fr.Element) BookKeepingT
 		inp = res
 	}
 
-	return res[0]
+	return inp[0]
 }
 
 // EvaluateChunked evaluates a chunked bookeeping table
-- 
2.43.0


From 82cf57a4aaff5fd7191142b947cee80c3afb54db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 03/12] fix: list every gate of a layer once

Gates never recorded the gates it had seen, so a gate used by several wires
was counted once per wire in the wiring tables and honest proofs of such
circuits were rejected.
---
 circuit/layers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuit/layers.go b/circuit/layers.go
index 4d41502..0fe26c0 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -132,6 +132,7 @@ func Gates(wires []Wire) []Gate {
 	res := []Gate{}
 	for _, wire := range wires {
 		if _, ok := gates[wire.Gate.ID()]; !ok {
+			gates[wire.Gate.ID()] = wire.Gate
 			res = append(res, wire.Gate)
 		}
 	}
-- 
2.43.0


From 1586bc15ae58e47640d15e05c62b4fcc1bb24dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 04/12] fix: reject proofs whose intermediate claims do not
 match the gates

The verifier accepted, and skipped every remaining check, as soon as the
combination check of an intermediate layer failed.
---
 gkr/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index 16f08dd..e43e891 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -96,7 +96,7 @@ func (v *Verifier) Verify(
 			v.evaluateStaticTablesLinCombs(layer, qL, qR, nextQL, nextQR, lambdaL, lambdaR),
 		) {
 			// The sumcheck claim was inconsistent with the values claimed in the proof
-			return true
+			return false
 		}
 	}
 
-- 
2.43.0


From e3f0e803414b3068ccd00cf6d1e85eef65d362cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 05/12] fix: reject sumcheck proofs with too few rounds or
 empty polynomials

The verifier panicked on them.
---
 sumcheck/verifier.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sumcheck/verifier.go b/sumcheck/verifier.go
index 1773721..03be4ca 100644
--- a/sumcheck/verifier.go
+++ b/sumcheck/verifier.go
@@ -12,6 +12,11 @@ type Verifier struct{}
 
 // Verify returns true if and only the sumcheck proof is valid
 func (v Verifier) Verify(claim fr.Element, proof Proof, bN, bG int) (result bool, qPrime, qL, qR []fr.Element, finalClaim fr.Element) {
+	if len(proof.PolyCoeffs) < 2*bG {
+		// There are not enough rounds to fold hL and hR
+		return false, nil, nil, nil, [4]uint64{0, 0, 0, 0}
+	}
+
 	// Initalize the structures
 	challenges := make([]fr.Element, len(proof.PolyCoeffs))
 	var expectedValue fr.Element = claim
@@ -19,6 +24,11 @@ func (v Verifier) Verify(claim fr.Element, proof Proof, bN, bG int) (result bool
 	one.SetOne()
 
 	for i := 0; i < len(proof.PolyCoeffs); i++ {
+		if len(proof.PolyCoeffs[i]) == 0 {
+			// An empty list of coefficients is not a polynomial
+			return false, nil, nil, nil, [4]uint64{0, 0, 0, 0}
+		}
+
 		// Check P_i(0) + P_i(1) == expected
 		actualValue = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], zero)
 		evalAtOne = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], one)
-- 
2.43.0


From 65f190553c7088e49dc4f724eb3a2fc0b65360f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 06/12] fix: reject GKR proofs whose shape does not fit the
 circuit

Missing or extra layers, claims, rounds or coefficients made the verifier
panic, or were ignored. Polynomials longer than the degree of the gates allow
for cheating provers.
---
 gkr/verifier.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index e43e891..7d2abbf 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -29,6 +29,11 @@ func (v *Verifier) Verify(
 	inputs, outputs [][]fr.Element,
 ) bool {
 
+	if !v.hasExpectedShape(proof) {
+		// The proof is malformed
+		return false
+	}
+
 	nLayers := len(v.circuit.Layers)
 
 	qPrime, q := GetInitialQPrimeAndQ(v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
@@ -113,6 +118,46 @@ func (v *Verifier) Verify(
 	return true
 }
 
+// hasExpectedShape returns true if the proof has one sumcheck proof and one pair of claims for each layer,
+// and if the sumcheck proofs have the right number of rounds and do not exceed the degrees of the gates
+func (v *Verifier) hasExpectedShape(proof Proof) bool {
+	nLayers := len(v.circuit.Layers)
+	if len(proof.SumcheckProofs) != nLayers ||
+		len(proof.ClaimsLeft) != nLayers ||
+		len(proof.ClaimsRight) != nLayers {
+		return false
+	}
+
+	for i, layer := range v.circuit.Layers {
+		degHL, degHR, degHPrime := 0, 0, 0
+		for _, gate := range layer.Gates {
+			dL, dR, dPrime := gate.Degrees()
+			degHL = common.Max(degHL, dL)
+			degHR = common.Max(degHR, dR)
+			degHPrime = common.Max(degHPrime, dPrime)
+		}
+
+		polyCoeffs := proof.SumcheckProofs[i].PolyCoeffs
+		if len(polyCoeffs) != v.bN+2*layer.BGInputs {
+			return false
+		}
+		for k, coeffs := range polyCoeffs {
+			// The static tables and eq add one to the degree of the gates
+			deg := degHPrime + 1
+			if k < layer.BGInputs {
+				deg = degHL + 1
+			} else if k < 2*layer.BGInputs {
+				deg = degHR + 1
+			}
+			if len(coeffs) == 0 || len(coeffs) > deg+1 {
+				return false
+			}
+		}
+	}
+
+	return true
+}
+
 func (v *Verifier) evaluateStaticTables(layer int, q, nextQL, nextQR []fr.Element) []fr.Element {
 	tables := v.circuit.Layers[layer].GetStaticTable(q)
 	evals := make([]fr.Element, len(tables))
-- 
2.43.0


From cfb6de45f0b928d59af497bde593b9cb7c5dba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 07/12] fix: evaluate the outputs at a point that depends on
 all of them

The first coordinates of the initial q and qPrime were 1, so the verifier
never looked at the outputs whose top wire or instance bit is 0: they could be
replaced by anything. q and qPrime were also equal, which hides swaps of wires
and instances. Derive distinct, non boolean coordinates with the hash.
---
 gkr/prover.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gkr/prover.go b/gkr/prover.go
index 6580e60..9ec8b2f 100644
--- a/gkr/prover.go
+++ b/gkr/prover.go
@@ -40,12 +40,13 @@ func GetInitialQPrimeAndQ(bN, bG int) ([]fr.Element, []fr.Element) {
 
 	// actually compute qInitial and qPrimeInitial
 	// TODO: Uses actual randomness
+	// The coordinates must not be boolean: the verifier would ignore half of the outputs
 	for i := range q {
-		q[i].SetUint64(uint64(i + 1))
+		q[i] = common.GetChallenge([]fr.Element{common.Uint64ToFr(0), common.Uint64ToFr(uint64(i + 1))})
 	}
 
 	for i := range qPrime {
-		qPrime[i].SetUint64(uint64(i + 1))
+		qPrime[i] = common.GetChallenge([]fr.Element{common.Uint64ToFr(1), common.Uint64ToFr(uint64(i + 1))})
 	}
 
 	return qPrime, q
-- 
2.43.0


From 8d05057a117f0165fb1bc26563e8caba9def06d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 08/12] fix: keep the state between the rounds of the Poseidon
 hash

---
 hash/poseidon.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/poseidon.go b/hash/poseidon.go
index 3e41355..96925c8 100644
--- a/hash/poseidon.go
+++ b/hash/poseidon.go
@@ -74,19 +74,19 @@ func (p *PoseidonHasher) Update(state, block []fr.Element) {
 	for i := 0; i < p.nRoundsF; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
 		FullRoundInPlace(state)
-		state = MatrixMultiplication(p.cauchy, state)
+		copy(state, MatrixMultiplication(p.cauchy, state))
 	}
 
 	for i := p.nRoundsF; i < p.nRoundsF+p.nRoundsP; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
 		PartialRoundInplace(state)
-		state = MatrixMultiplication(p.cauchy, state)
+		copy(state, MatrixMultiplication(p.cauchy, state))
 	}
 
 	for i := p.nRoundsF + p.nRoundsP; i < 2*p.nRoundsF+p.nRoundsP; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
 		FullRoundInPlace(state)
-		state = MatrixMultiplication(p.cauchy, state)
+		copy(state, MatrixMultiplication(p.cauchy, state))
 	}
 
 	// Recombine with the old state
-- 
2.43.0


From 6d43365e761dc69da4b894a7e0f870a752c511b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 09/12] fix: identify cipher gates without the shared buffer of
 Element.String

Element.String renders through a pool whose big.Ints all share one static
array, so concurrent provers or verifiers read each other's gate ids and
built wrong wiring tables: proofs made concurrently differed and were rejected.
---
 circuit/gates.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/circuit/gates.go b/circuit/gates.go
index 4c80b4f..710ac8e 100644
--- a/circuit/gates.go
+++ b/circuit/gates.go
@@ -2,6 +2,7 @@ package circuit
 
 import (
 	"fmt"
+	"math/big"
 
 	"github.com/consensys/gnark/frontend"
 	"github.com/consensys/gurvy/bn256/fr"
@@ -152,7 +153,11 @@ func NewCipherGate(ark fr.Element) *CipherGate {
 }
 
 // ID returns the id of the cipher gate and print the ark as well
-func (c *CipherGate) ID() string { return fmt.Sprintf("CipherGate-%v", c.Ark.String()) }
+// The decimal form is not taken from c.Ark.String(): it goes through a buffer that
+// all the goroutines share, so concurrent calls would return each other's digits
+func (c *CipherGate) ID() string {
+	return fmt.Sprintf("CipherGate-%v", c.Ark.ToBigIntRegular(new(big.Int)).String())
+}
 
 // Eval returns vL + (vR + c)^7
 func (c *CipherGate) Eval(res, vL, vR *fr.Element) {
-- 
2.43.0


From 4f42f1e9a9bffad92017580a1818ee4630d8645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 10/12] fix: print field elements without the shared buffer of
 Element.String

Concurrent calls of the printers returned each other's digits or panicked.
---
 common/common.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/common.go b/common/common.go
index 028be00..f14deff 100644
--- a/common/common.go
+++ b/common/common.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"fmt"
+	"math/big"
 
 	"github.com/consensys/gurvy/bn256/fr"
 )
@@ -10,8 +11,9 @@ import (
 func PrettyStringFr(x fr.Element) string {
 	negX := x
 	negX.Neg(&negX)
-	negXStr := negX.String()
-	xStr := x.String()
+	// Not Element.String: it goes through a buffer that all the goroutines share
+	negXStr := negX.ToBigIntRegular(new(big.Int)).String()
+	xStr := x.ToBigIntRegular(new(big.Int)).String()
 
 	if len(xStr) <= len(negXStr) {
 		return xStr
-- 
2.43.0


From 3f70632b10c806430ebe11cdc0ad95de6d441cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 11/12] fix: refuse to assign GKR proofs with extra layers or
 claims

The extra elements were dropped silently, so the constraint system accepted
proofs that the native verifier rejects.
---
 snark/gkr/proof.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/snark/gkr/proof.go b/snark/gkr/proof.go
index 6d626aa..f2c85db 100644
--- a/snark/gkr/proof.go
+++ b/snark/gkr/proof.go
@@ -1,6 +1,7 @@
 package gkr
 
 import (
+	"fmt"
 	"gkr-mimc/gkr"
 	"gkr-mimc/hash"
 	hashGadget "gkr-mimc/snark/hash"
@@ -40,6 +41,14 @@ func AllocateProof(bN int, circuit Circuit) Proof {
 
 // Assign the proof object
 func (p *Proof) Assign(proof gkr.Proof) {
+	if len(proof.SumcheckProofs) != len(p.SumcheckProofs) ||
+		len(proof.ClaimsLeft) != len(p.ClaimsLeft) ||
+		len(proof.ClaimsRight) != len(p.ClaimsRight) {
+		panic(fmt.Sprintf(
+			"Inconsistent assignment: expected %v layers, but got %v sumcheck proofs, %v left and %v right claims",
+			len(p.SumcheckProofs), len(proof.SumcheckProofs), len(proof.ClaimsLeft), len(proof.ClaimsRight),
+		))
+	}
 	for k := range p.SumcheckProofs {
 		p.SumcheckProofs[k].Assign(proof.SumcheckProofs[k])
 		p.ClaimsLeft[k].Assign(proof.ClaimsLeft[k])
-- 
2.43.0


From 1ca90349580dab351a284691d3686c354d556c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 12/12] fix: refuse inputs and outputs that are not a batch of
 the verifier's size

---
 gkr/verifier.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index 7d2abbf..01d4597 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -36,6 +36,13 @@ func (v *Verifier) Verify(
 
 	nLayers := len(v.circuit.Layers)
 
+	if len(inputs) > 1<<v.bN ||
+		!isBatchOfSize(inputs, v.bN+v.circuit.Layers[0].BGInputs) ||
+		!isBatchOfSize(outputs, v.bN+v.circuit.Layers[nLayers-1].BGOutputs) {
+		// The inputs or the outputs are not those of 1<<bN instances
+		return false
+	}
+
 	qPrime, q := GetInitialQPrimeAndQ(v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
 	var qL, qR []fr.Element
 
@@ -118,6 +125,20 @@ func (v *Verifier) Verify(
 	return true
 }
 
+// isBatchOfSize returns true if the batch holds 1<<logSize values in a power of two number of equal chunks
+func isBatchOfSize(batch [][]fr.Element, logSize int) bool {
+	nChunks := len(batch)
+	if nChunks == 0 || nChunks&(nChunks-1) != 0 || nChunks > 1<<logSize {
+		return false
+	}
+	for _, chunk := range batch {
+		if len(chunk) != (1<<logSize)/nChunks {
+			return false
+		}
+	}
+	return true
+}
+
 // hasExpectedShape returns true if the proof has one sumcheck proof and one pair of claims for each layer,
 // and if the sumcheck proofs have the right number of rounds and do not exceed the degrees of the gates
 func (v *Verifier) hasExpectedShape(proof Proof) bool {
-- 
2.43.0

