From 180e6241cfdc58eae99225fded53b79b93cbac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:08 +0000
Subject: [PATCH 1/3] fix: arm64 block function must not read the undefined
 register R16

blockARM64 computed its end-of-input bound from R16, which is never set:
its content on entry is whatever the caller left there. With a value in
the last 64 bytes of the address space the bound wraps, the block is
skipped and the digest is silently wrong. Use the input pointer, R1.
---
 sha1cdblock_arm64.s | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sha1cdblock_arm64.s b/sha1cdblock_arm64.s
index 6376204..73f5a31 100644
--- a/sha1cdblock_arm64.s
+++ b/sha1cdblock_arm64.s
@@ -37,14 +37,14 @@ TEXT ·blockARM64(SB), NOSPLIT, $80-96
 
     LSR     $6, R2, R2
     LSL     $6, R2, R2
-    ADD     R16, R2, R21
+    ADD     R1, R2, R21
 
 	VLD1.P	16(R0), [V0.S4]
 	FMOVS	(R0), F20
 	SUB	$16, R0, R0
 
 loop:
-	CMP     R16, R21
+	CMP     R1, R21
 	BLS     end
 
 	// Load block (p) into 16-bytes vectors.
-- 
2.43.0


From 3b5e984cfb5c09022787767c262c57db78f04ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:20 +0000
Subject: [PATCH 2/3] fix: keep the collision verdict across
 MarshalBinary/UnmarshalBinary

A hash saved after it had found a collision lost that fact: the restored
hash reported no collision for the rest of the stream. Conversely a hash
which had found one and was then restored to an innocent state kept
reporting it. Save the verdict in the state's identifier (the layout is
otherwise unchanged, and states without a collision are byte-identical
to before) and always restore it.
---
 internal/const.go |  6 +++++-
 sha1cd.go         | 13 +++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/const.go b/internal/const.go
index 944a131..5afea4b 100644
--- a/internal/const.go
+++ b/internal/const.go
@@ -37,6 +37,10 @@ const (
 	// Currently there are 3 pre-step compression states required: 0, 58, 65.
 	PreStepState = 3
 
-	Magic         = "shacd\x01"
+	Magic = "shacd\x01"
+	// MagicCollision replaces Magic in the marshaled state of a hash which
+	// has already found a collision. The rest of the layout is the same.
+	MagicCollision = "shacd\x02"
+
 	MarshaledSize = len(Magic) + 5*4 + Chunk + 8
 )
diff --git a/sha1cd.go b/sha1cd.go
index 865a995..9bd694e 100644
--- a/sha1cd.go
+++ b/sha1cd.go
@@ -38,7 +38,11 @@ type digest struct {
 
 func (d *digest) MarshalBinary() ([]byte, error) {
 	b := make([]byte, 0, shared.MarshaledSize)
-	b = append(b, shared.Magic...)
+	if d.col {
+		b = append(b, shared.MagicCollision...)
+	} else {
+		b = append(b, shared.Magic...)
+	}
 	b = appendUint32(b, d.h[0])
 	b = appendUint32(b, d.h[1])
 	b = appendUint32(b, d.h[2])
@@ -73,7 +77,11 @@ func appendUint64(b []byte, v uint64) []byte {
 }
 
 func (d *digest) UnmarshalBinary(b []byte) error {
-	if len(b) < len(shared.Magic) || string(b[:len(shared.Magic)]) != shared.Magic {
+	if len(b) < len(shared.Magic) {
+		return errors.New("crypto/sha1: invalid hash state identifier")
+	}
+	magic := string(b[:len(shared.Magic)])
+	if magic != shared.Magic && magic != shared.MagicCollision {
 		return errors.New("crypto/sha1: invalid hash state identifier")
 	}
 	if len(b) != shared.MarshaledSize {
@@ -88,6 +96,7 @@ func (d *digest) UnmarshalBinary(b []byte) error {
 	b = b[copy(d.x[:], b):]
 	b, d.len = consumeUint64(b)
 	d.nx = int(d.len % shared.Chunk)
+	d.col = magic == shared.MagicCollision
 	return nil
 }
 
-- 
2.43.0


From 5fd98698426e90dd540fa38233ae4c477ea3f15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:49 +0000
Subject: [PATCH 3/3] fix: undo only executed steps when recompressing from
 step 58

hasCollided walks back from the recompression step to the chaining value,
but rotated the working variables also for the steps above the one it
starts from. For vectors tested at step 65 there are none, for those tested
at step 58 there are seven, so the five words ended up permuted and an
attack block for any of these 18 of the 32 disturbance vectors was neither
flagged nor neutralised, unlike in the C implementation.
---
 sha1cdblock_generic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sha1cdblock_generic.go b/sha1cdblock_generic.go
index a80148e..29633a4 100644
--- a/sha1cdblock_generic.go
+++ b/sha1cdblock_generic.go
@@ -194,24 +194,24 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	// The existing collision detection does not have dvs higher than 65,
 	// start value of i accordingly.
 	for i := uint32(64); i >= 60; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := b ^ c ^ d
 			e -= bits.RotateLeft32(a, 5) + f + shared.K3 + (m1[i] ^ dm[i]) // m2 = m1 ^ dm.
 		}
 	}
 	for i := uint32(59); i >= 40; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := ((b | c) & d) | (b & c)
 			e -= bits.RotateLeft32(a, 5) + f + shared.K2 + (m1[i] ^ dm[i])
 		}
 	}
 	for i := uint32(39); i >= 20; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := b ^ c ^ d
 			e -= bits.RotateLeft32(a, 5) + f + shared.K1 + (m1[i] ^ dm[i])
@@ -219,8 +219,8 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	}
 	for i := uint32(20); i > 0; i-- {
 		j := i - 1
-		a, b, c, d, e = b, c, d, e, a
 		if step > j {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30) // undo the rotate left
 			f := b&c | (^b)&d
 			// subtract from e
-- 
2.43.0

