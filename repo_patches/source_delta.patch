From cafa333e7a5c4547f7cff6a05232200167627d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:02 +0000
Subject: [PATCH 1/5] fix: do not panic in Scalar.UnmarshalText on long input

Base64 text of more than 32 bytes was decoded into a 32 byte buffer.
---
 scalar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scalar.go b/scalar.go
index 10c0cfc..06fabae 100644
--- a/scalar.go
+++ b/scalar.go
@@ -1067,13 +1067,16 @@ func (s *Scalar) MarshalText() ([]byte, error) {
 func (s *Scalar) UnmarshalText(txt []byte) error {
 	enc := base64.RawURLEncoding
 	var buf [32]byte
-	n, err := enc.Decode(buf[:], txt)
+	// txt might decode to more than 32 bytes.
+	tmp := make([]byte, enc.DecodedLen(len(txt)))
+	n, err := enc.Decode(tmp, txt)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Scalar should be 32 bytes; not %d", n)
 	}
+	copy(buf[:], tmp)
 	s.SetBytes(&buf)
 	return nil
 }
-- 
2.43.0


From a72b4dadb7851de55f5caf2f084e89b3fea9cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:02 +0000
Subject: [PATCH 2/5] fix: do not panic in Point.UnmarshalText on long input

Base64 text of more than 32 bytes was decoded into a 32 byte buffer.
---
 ristretto.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristretto.go b/ristretto.go
index 7917d79..bb0d203 100644
--- a/ristretto.go
+++ b/ristretto.go
@@ -373,13 +373,16 @@ func textToBuf(dst, src []byte) error {
 		}
 	}
 	enc := base64.RawURLEncoding
-	n, err = enc.Decode(dst, src)
+	// src might decode to more than 32 bytes.
+	tmp := make([]byte, enc.DecodedLen(len(src)))
+	n, err = enc.Decode(tmp, src)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
 	}
+	copy(dst, tmp)
 	return nil
 }
 
-- 
2.43.0


From bca72ef959ef3b1c501019c2fd0ed61042934b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:47 +0000
Subject: [PATCH 3/5] fix: do not write to the receiver in
 FieldElement.BytesInto (generic)

BytesInto, and with it Equals(), IsNonZeroI(), Bytes(), and so on, reduced
the FieldElement in place, which is a data race if the element is used by
several goroutines at once.
---
 edwards25519/field_generic.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edwards25519/field_generic.go b/edwards25519/field_generic.go
index c8eb2a2..2e5324d 100644
--- a/edwards25519/field_generic.go
+++ b/edwards25519/field_generic.go
@@ -251,6 +251,11 @@ func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
 func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	var carry [10]int32
 
+	// Reduce a copy: fe itself might be shared between goroutines.
+	ret := fe
+	t := *fe
+	fe = &t
+
 	q := (19*fe[9] + (1 << 24)) >> 25
 	q = (fe[0] + q) >> 26
 	q = (fe[1] + q) >> 25
@@ -327,7 +332,7 @@ func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	s[29] = byte(fe[9] >> 2)
 	s[30] = byte(fe[9] >> 10)
 	s[31] = byte(fe[9] >> 18)
-	return fe
+	return ret
 }
 
 // Sets fe to the little endian number encoded in buf modulo 2^255-19.
-- 
2.43.0


From c41d4eb9eb974459343111df8c39600fa9730dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:02 +0000
Subject: [PATCH 4/5] fix: allow the receiver of NielsPoint.Neg to be its
 argument

---
 edwards25519/table.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edwards25519/table.go b/edwards25519/table.go
index 09e431a..257b025 100644
--- a/edwards25519/table.go
+++ b/edwards25519/table.go
@@ -33,8 +33,10 @@ func (p *NielsPoint) ConditionalSet(q *NielsPoint, b int32) *NielsPoint {
 
 // Set p to -q.  Returns p.
 func (p *NielsPoint) Neg(q *NielsPoint) *NielsPoint {
-	p.YMinusX.Set(&q.YPlusX)
+	var yPlusX FieldElement
+	yPlusX.Set(&q.YPlusX) // p and q might be the same
 	p.YPlusX.Set(&q.YMinusX)
+	p.YMinusX.Set(&yPlusX)
 	p.XY2D.Neg(&q.XY2D)
 	return p
 }
-- 
2.43.0


From bb39a305c4c51f03bd63afad434b925dab074422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:34 +0000
Subject: [PATCH 5/5] fix: return all Elligator2 preimages of the identity

RistrettoElligator2Inverse did not return sqrt(i/d), which is sent to the
identity as well.
---
 edwards25519/elligator.go     | 7 +++++++
 edwards25519/field_generic.go | 6 ++++++
 edwards25519/field_radix51.go | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/edwards25519/elligator.go b/edwards25519/elligator.go
index b544cdf..00d67ee 100644
--- a/edwards25519/elligator.go
+++ b/edwards25519/elligator.go
@@ -46,6 +46,13 @@ func (p *ExtendedPoint) RistrettoElligator2Inverse(fes *[8]FieldElement) uint8 {
 		setMask |= uint8(jc.elligator2Inverse(&fes[2*j+1]) << uint(2*j+1))
 	}
 
+	// Special case: X=0 or Y=0.  Both sqrt(i*d) and sqrt(i/d) are sent to the
+	// same point on the Jacobi quartic.  The former has been found twice, as
+	// the first two points on the quartic are the same in this case, so we can
+	// put the latter in place of the second.
+	XorYisZero := 1 - (p.X.IsNonZeroI() & p.Y.IsNonZeroI())
+	fes[2].ConditionalSet(&feSqrtIOverD, XorYisZero)
+
 	return setMask
 }
 
diff --git a/edwards25519/field_generic.go b/edwards25519/field_generic.go
index 2e5324d..c8732c2 100644
--- a/edwards25519/field_generic.go
+++ b/edwards25519/field_generic.go
@@ -78,6 +78,12 @@ var (
 		-1348074, -30782278, -9245017, 26167231, 1494357,
 	}
 
+	// sqrt(i/d)
+	feSqrtIOverD = FieldElement{
+		23733568, 11663665, -8339769, -16610452, 17576933,
+		-11883678, 28147949, -5559112, 9046729, 201449,
+	}
+
 	// 1 / sqrt(1+d)
 	feInvSqrt1pD = FieldElement{
 		-29089260, 4791796, 20332186, -14900950, -20532188,
diff --git a/edwards25519/field_radix51.go b/edwards25519/field_radix51.go
index 0d3b40d..b5e9e35 100644
--- a/edwards25519/field_radix51.go
+++ b/edwards25519/field_radix51.go
@@ -79,6 +79,12 @@ var (
 		3883177008057528, 2352084440532925,
 	}
 
+	// sqrt(i/d)
+	feSqrtIOverD = FieldElement{
+		782735331960128, 1137091241098951, 1454299700540388,
+		1878734150664428, 13519022590664,
+	}
+
 	// 1/sqrt(d+1)
 	feInvSqrt1pD = FieldElement{
 		321571956990465, 1251814006996634, 2226845496292387,
-- 
2.43.0

