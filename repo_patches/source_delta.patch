From e714b0f0d1282b175207590cea4650cde801b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 1/8] fix: the sign returned by IntGadget.Abs must be unique
 for zero

The prover could claim that 0 is negative, since -0 passes the range check as
well, and e.g. make Trunc(1.5) = 0 acceptable.
---
 gadget/gadget.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 5bb8a2e..0826aba 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -85,13 +85,15 @@ func (f *IntGadget) Abs(v frontend.Variable, length uint) (frontend.Variable, fr
 	}
 	is_positive := outputs[0]
 	f.api.AssertIsBoolean(is_positive)
-	abs := f.api.Select(
+	is_negative := f.api.Sub(big.NewInt(1), is_positive)
+	// For a negative `v`, range-check `-v - 1` instead of `-v`, so that `v = 0` cannot be claimed to be negative
+	magnitude := f.api.Select(
 		is_positive,
 		v,
-		f.api.Neg(v),
+		f.api.Sub(f.api.Neg(v), big.NewInt(1)),
 	)
-	f.AssertBitLength(abs, length, Loose)
-	return abs, is_positive
+	f.AssertBitLength(magnitude, length, Loose)
+	return f.api.Add(magnitude, is_negative), is_positive
 }
 
 func (f *IntGadget) IsPositive(v frontend.Variable, length uint) frontend.Variable {
-- 
2.43.0


From 5cec4f3136ee76ba7004d8beda25a4fc2d38df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 2/8] fix: check the power of two returned by a query to its
 exact bit length

When the limb width does not divide the table size, a loose check leaves room
for an answer whose high bits change the exponent that is looked up.
---
 gadget/gadget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 0826aba..07404a8 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -128,7 +128,7 @@ func (f *IntGadget) QueryPowerOf2(exponent frontend.Variable) frontend.Variable
 	}
 	result := outputs[0]
 	// Make sure the result is small
-	f.AssertBitLength(result, uint(len(f.pow2.entries)), Loose)
+	f.AssertBitLength(result, uint(len(f.pow2.entries)), TightForUnknownRange)
 	// Compute `exponent || result` and add it to the list of queries
 	f.pow2.queries = append(f.pow2.queries, []frontend.Variable{f.api.Add(
 		f.api.Mul(exponent, new(big.Int).Lsh(big.NewInt(1), uint(len(f.pow2.entries)))),
-- 
2.43.0


From 80de38c0b36fe9b0197e99f3c5756f44c87cc080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 3/8] fix: do not commit to an empty set of power-of-two
 queries

The lookup argument requires at least one query, so circuits that create a
context without querying a power of two could not be proven.
---
 gadget/gadget.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 07404a8..f8fe956 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -31,6 +31,9 @@ func NewPowersOfTwoTable(api frontend.API, size uint) *PowersOfTwo {
 }
 
 func (t *PowersOfTwo) commit(api frontend.API) error {
+	if len(t.queries) == 0 {
+		return nil
+	}
 	return logderivarg.Build(api, t.entries, t.queries)
 }
 
-- 
2.43.0


From 4dd1a3f52adf2647ce89a8c661ac31eb740933da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 4/8] fix: the sign of an exact cancellation in Add must be
 positive

The sign of a zero sum was free advice, so x + (-x) could be proven to be -0.
---
 float/float.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/float/float.go b/float/float.go
index 3977898..79d23e5 100644
--- a/float/float.go
+++ b/float/float.go
@@ -573,7 +573,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 	sign := f.Api.Select(
 		f.Gadget.IsEq(x.Sign, y.Sign),
 		x.Sign,
-		mantissa_lt_0,
+		f.Api.And(mantissa_lt_0, mantissa_is_not_zero), // x + (-x) is always +0
 	)
 
 	mantissa = f.round(
-- 
2.43.0


From a398af7d773ef16cc05a67a9ebec498c6d708ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:37 +0000
Subject: [PATCH 5/8] fix: exact cancellation of the largest exponent is zero,
 not infinity

---
 float/float.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/float/float.go b/float/float.go
index 79d23e5..93c9b48 100644
--- a/float/float.go
+++ b/float/float.go
@@ -564,8 +564,9 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 		mantissa_bit_length-1,
 		gadget.TightForSmallAbs,
 	)
-	// Decrement the exponent by `shift`.
-	exponent = f.Api.Sub(exponent, shift)
+	// Decrement the exponent by `shift`, unless the mantissa is zero: an exact cancellation has no
+	// leading bit to shift to, and its exponent must not be mistaken for an overflow later.
+	exponent = f.Api.Select(mantissa_is_zero, f.E_MIN, f.Api.Sub(exponent, shift))
 
 	// `mantissa_ge_0` can be directly used to determine the sign of the result, except for the case
 	// `-0 + -0`. Therefore, we first check whether the signs of `x` and `y` are the same. If so,
-- 
2.43.0


From 3208ffb34b532c592b33af1675067d3bffddfec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 6/8] fix: report failed witness, srs and verification in the
 proof helpers

---
 util/util.go | 50 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/util/util.go b/util/util.go
index bc0b627..0f4947c 100644
--- a/util/util.go
+++ b/util/util.go
@@ -516,9 +516,11 @@ func BenchProof(b *testing.B, circuit, assignment frontend.Circuit) {
 		require.NoError(b, err)
 		fmt.Println("groth16 proved", id, "in", time.Now().UnixMicro()-start, "μs")
 
-		publicWitness, _ := fullWitness.Public()
+		publicWitness, err := fullWitness.Public()
+		require.NoError(b, err)
 
-		groth16.Verify(proof, vk, publicWitness)
+		err = groth16.Verify(proof, vk, publicWitness)
+		require.NoError(b, err)
 	}
 }
 
@@ -564,6 +566,10 @@ func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit,
 		fmt.Println("Number of constraints:", cs.GetNbConstraints())
 
 		fullWitness, err := frontend.NewWitness(assignment, ecc.BN254.ScalarField())
+		if err != nil {
+			b.Errorf("Failed Full Witness: %v", err)
+			return err
+		}
 
 		// Setup step with time measurement
 		start = time.Now().UnixMicro()
@@ -587,8 +593,12 @@ func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit,
 
 		// Verifier step with time measurement
 		start = time.Now().UnixMicro()
-		publicWitness, _ := fullWitness.Public()
-		groth16.Verify(proof, vk, publicWitness)
+		publicWitness, err := fullWitness.Public()
+		if err != nil {
+			b.Errorf("Failed Public Witness: %v", err)
+			return err
+		}
+		err = groth16.Verify(proof, vk, publicWitness)
 		if err != nil {
 			b.Errorf("Failed in verifying: %v", err)
 			return err
@@ -649,6 +659,10 @@ func BenchProofToFilePlonk(b *testing.B, circuit, assignment frontend.Circuit, r
 		fmt.Println("Number of constraints:", ccs.GetNbConstraints())
 
 		fullWitness, err := frontend.NewWitness(assignment, ecc.BN254.ScalarField())
+		if err != nil {
+			b.Errorf("Failed Full Witness: %v", err)
+			return err
+		}
 
 		// create srs
 		srs, srsLagrange, err := unsafekzg.NewSRS(ccs)
@@ -679,7 +693,11 @@ func BenchProofToFilePlonk(b *testing.B, circuit, assignment frontend.Circuit, r
 
 		// Verifier step with time measurement
 		start = time.Now().UnixMicro()
-		publicWitness, _ := fullWitness.Public()
+		publicWitness, err := fullWitness.Public()
+		if err != nil {
+			b.Errorf("Failed Public Witness: %v", err)
+			return err
+		}
 		err = plonk.Verify(proof, vk, publicWitness)
 		verifierTime = time.Now().UnixMicro() - start
 		if err != nil {
@@ -743,8 +761,16 @@ func BenchProofMemoryGroth16(b *testing.B, circuit, assignment frontend.Circuit)
 		return err
 	}
 
-	publicWitness, _ := fullWitness.Public()
-	groth16.Verify(proof, vk, publicWitness)
+	publicWitness, err := fullWitness.Public()
+	if err != nil {
+		b.Errorf("Failed Public Witness: %v", err)
+		return err
+	}
+	err = groth16.Verify(proof, vk, publicWitness)
+	if err != nil {
+		b.Errorf("Failed in verifying: %v", err)
+		return err
+	}
 
 	return nil
 }
@@ -764,6 +790,10 @@ func BenchProofMemoryPlonk(b *testing.B, circuit, assignment frontend.Circuit) e
 	}
 
 	srs, srsLagrange, err := unsafekzg.NewSRS(ccs)
+	if err != nil {
+		b.Errorf("Failed to create srs: %v", err)
+		return err
+	}
 
 	pk, vk, err := plonk.Setup(ccs, srs, srsLagrange)
 	if err != nil {
@@ -795,7 +825,11 @@ func BenchProofMemoryPlonk(b *testing.B, circuit, assignment frontend.Circuit) e
 		return err
 	}
 
-	publicWitness, _ := fullWitness.Public()
+	publicWitness, err := fullWitness.Public()
+	if err != nil {
+		b.Errorf("Failed Public Witness: %v", err)
+		return err
+	}
 	err = plonk.Verify(proof, vk, publicWitness)
 	if err != nil {
 		b.Errorf("Failed in verifying: %v", err)
-- 
2.43.0


From bce547e0c3965f6a7252f38679693ce6fcaf39d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 7/8] fix: report grid coordinates that do not fit an int
 instead of returning a wrong value

---
 proximity/proximity.go | 19 +++++++++++++------
 util/util.go           | 15 ++++++++++++---
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 71201cc..c46cc33 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -91,13 +91,20 @@ func executeLatLngToIJK(executablePath string, resolution int, latitude, longitu
 		return 0, 0, 0, fmt.Errorf("failed to parse output")
 	}
 
-	return extractInt(matches[1]), extractInt(matches[2]), extractInt(matches[3]), nil
-}
+	i, err := strconv.Atoi(matches[1])
+	if err != nil {
+		return 0, 0, 0, err
+	}
+	j, err := strconv.Atoi(matches[2])
+	if err != nil {
+		return 0, 0, 0, err
+	}
+	k, err := strconv.Atoi(matches[3])
+	if err != nil {
+		return 0, 0, 0, err
+	}
 
-// extractInt is a helper function to convert a string to an int.
-func extractInt(s string) int {
-	i, _ := strconv.Atoi(s)
-	return i
+	return i, j, k, nil
 }
 
 func latLngToCell(resolution int, latitude, longitude float64) (string, error) {
diff --git a/util/util.go b/util/util.go
index 0f4947c..04beb00 100644
--- a/util/util.go
+++ b/util/util.go
@@ -438,9 +438,18 @@ func ExecuteLatLngToIJK(resolution int, latitude float64, longitude float64) (in
 	}
 
 	// Convert matched strings to integers
-	i, _ := strconv.Atoi(matches[1])
-	j, _ := strconv.Atoi(matches[2])
-	k, _ := strconv.Atoi(matches[3])
+	i, err := strconv.Atoi(matches[1])
+	if err != nil {
+		return 0, 0, 0, err
+	}
+	j, err := strconv.Atoi(matches[2])
+	if err != nil {
+		return 0, 0, 0, err
+	}
+	k, err := strconv.Atoi(matches[3])
+	if err != nil {
+		return 0, 0, 0, err
+	}
 
 	return i, j, k, nil
 }
-- 
2.43.0


From 1b709899c5c91ddd0e0c5e8d1f5918bc4ab31060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 8/8] fix: keep the sign of boundary coordinates and reject
 output without any

---
 proximity/proximity.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index c46cc33..497df3e 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -155,7 +155,7 @@ func cellToBoundary(h3Index string) ([][2]float64, error) {
 		return nil, err
 	}
 
-	pattern := regexp.MustCompile(`(\d+\.\d+)\s+(\d+\.\d+)`)
+	pattern := regexp.MustCompile(`(-?\d+\.\d+)\s+(-?\d+\.\d+)`)
 	matches := pattern.FindAllStringSubmatch(string(output), -1)
 
 	var boundary [][2]float64
@@ -176,6 +176,9 @@ func cellToBoundary(h3Index string) ([][2]float64, error) {
 
 		boundary = append(boundary, [2]float64{lat, lng})
 	}
+	if len(boundary) == 0 {
+		return nil, fmt.Errorf("failed to parse cell boundary")
+	}
 
 	return boundary, nil
 }
-- 
2.43.0

