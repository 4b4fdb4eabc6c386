From 91eaa83d4f2d62ea25a1eabc28d305ffb8d4cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 01/26] fix: utils: read AES-NI flag from ECX of CPUID leaf 1

---
 utils/cpuid_amd64.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/utils/cpuid_amd64.go b/utils/cpuid_amd64.go
index 3f20c01..432713d 100644
--- a/utils/cpuid_amd64.go
+++ b/utils/cpuid_amd64.go
@@ -23,11 +23,13 @@ func init() {
 		return
 	}
 
-	_, ecx, _, _ := cpuid(1, 0)
+	// AES-NI support is signaled in ECX. EBX carries, amongst others, initial
+	// APIC ID, hence it differs between cores.
+	_, _, ecx, _ := cpuid(1, 0)
 	X86.HasAES = bitn(ecx, 25)
 
-	_, ecx, _, _ = cpuid(7, 0)
-	X86.HasBMI2 = bitn(ecx, 8)
-	X86.HasADX = bitn(ecx, 19)
-	X86.HasRDSEED = bitn(ecx, 18)
+	_, ebx, _, _ := cpuid(7, 0)
+	X86.HasBMI2 = bitn(ebx, 8)
+	X86.HasADX = bitn(ebx, 19)
+	X86.HasRDSEED = bitn(ebx, 18)
 }
-- 
2.43.0


From 98dfb85b19e6062c741a4da2919913eba4e0bc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 02/26] fix: drbg: generate a fresh block for the partial tail
 of a read

---
 drbg/ctr_drbg.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 10ad81d..7f23162 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -147,8 +147,12 @@ func (c *CtrDrbg) ReadWithAdditionalData(out, ad []byte) (n int, err error) {
 	}
 
 	// Copy remainder - case for out being not block aligned
-	c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
-	copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
+	if len(out)%BlockLen != 0 {
+		c.inc()
+		c.blockEnc.SetKey(c.key[:])
+		c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
+		copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
+	}
 
 	c.update(seedBuf[:])
 	c.counter += 1
-- 
2.43.0


From 9895cd091ffd22ef8fcabe7e9cd6ab236607b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 03/26] fix: drbg: start Init from zeroed key and V

---
 drbg/ctr_drbg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 7f23162..7902db7 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -79,6 +79,9 @@ func (c *CtrDrbg) Init(entropy, personalization []byte) bool {
 		seedBuf[i] ^= personalization[i]
 	}
 
+	// Instantiation starts with zeroed key and V (SP800-90A, 10.2.1.3)
+	c.key = [KeyLen]byte{}
+	c.v = [BlockLen]byte{}
 	c.blockEnc.SetKey(c.key[:])
 	c.update(seedBuf[:])
 	c.counter = 1
-- 
2.43.0


From e792d5d08b00ad9fe24a275b2c0ef9d0aabb660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 04/26] fix: csidh: clear public key before importing into it

---
 dh/csidh/csidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index d8f9c21..0844b3b 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -247,6 +247,7 @@ func (c *PublicKey) Import(key []byte) bool {
 	if len(key) != numWords*limbByteSize {
 		return false
 	}
+	c.a = fp{}
 	for i := 0; i < len(key); i++ {
 		j := i / limbByteSize
 		k := uint64(i % 8)
-- 
2.43.0


From fbb43be3440cba8022e5cbb136b7edd1b16e4e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 05/26] fix: csidh: don't panic on private key input longer
 than the key

---
 dh/csidh/csidh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index 0844b3b..a321284 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -200,8 +200,8 @@ func (c *PrivateKey) Import(key []byte) bool {
 	if len(key) < len(c.e) {
 		return false
 	}
-	for i, v := range key {
-		c.e[i] = int8(v)
+	for i := range c.e {
+		c.e[i] = int8(key[i])
 	}
 	return true
 }
-- 
2.43.0


From 419567c2919cbc9123325877b83f3ebffdbf75f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 06/26] fix: sidh: clear field element before reading it from
 bytes

---
 dh/sidh/common/utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/common/utils.go b/dh/sidh/common/utils.go
index e5ff4b3..988a204 100644
--- a/dh/sidh/common/utils.go
+++ b/dh/sidh/common/utils.go
@@ -19,6 +19,7 @@ func BytesToFp2(fp2 *Fp2, input []byte, bytelen int) {
 		panic("input byte slice too short")
 	}
 
+	*fp2 = Fp2{}
 	for i := 0; i < bytelen; i++ {
 		j := i / 8
 		k := uint64(i % 8)
-- 
2.43.0


From fb7be3ddf274ae4d2b2e619e88a0f3d6a2a8aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 07/26] fix: sidh: hash only the ciphertext when encapsulating
 into a bigger buffer

---
 dh/sidh/sike.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index 611b68b..bb8a65f 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -100,7 +100,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *PublicKey) error {
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
-- 
2.43.0


From 3153356838a7cab24dda025fefddeceb3b84e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 08/26] fix: mkem: hash only the ciphertext when encapsulating
 into a bigger buffer

---
 kem/mkem/sike.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 150ebab..ef26a4c 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -144,7 +144,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *sidh.PublicKey) error
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
-- 
2.43.0


From 6762dba2167f1b44c8824a4ecacae3e87255721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 09/26] fix: mkem: verify re-encryption of the decrypted
 message in MultiKEM.Decapsulate

---
 kem/mkem/sike.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index ef26a4c..8a2635b 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -351,7 +351,7 @@ func (c *MultiKEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.Pu
 	_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
 	_, _ = c.shake.Read(cti[:skA.Params.MsgLen])
 	for i := 0; i < skA.Params.MsgLen; i++ {
-		cti[i] ^= c.msg[i]
+		cti[i] ^= m[i]
 	}
 
 	// S is chosen at random when generating a key and unknown to other party. It is
-- 
2.43.0


From d5f969c714fa533115d547a3ea9e0a3f47326227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 10/26] fix: mkem: reset the hash before use in
 MultiPKE.Encrypt

---
 kem/mkem/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index 8927754..58d98f4 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -94,9 +94,9 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 	for i, pk := range keys {
 		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
 
+		c.H.Reset()
 		c.H.Write(ss[:])
 		c.H.Read(ss[:16])
-		c.H.Reset()
 		for j := 0; j < 16; j++ {
 			c.Cts[i][j] = pt[j] ^ ss[j]
 		}
-- 
2.43.0


From e856f2ac26ac5f78b5ce96199e768fde6fab50ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 11/26] fix: sha3: don't change state of the hash in Sum

---
 hash/sha3/sha3.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hash/sha3/sha3.go b/hash/sha3/sha3.go
index d08dff8..0f903da 100644
--- a/hash/sha3/sha3.go
+++ b/hash/sha3/sha3.go
@@ -191,7 +191,7 @@ func (c *state) Read(out []byte) (nread int, err error) {
 }
 
 // Sum applies padding to the hash state and then squeezes out the desired
-// number of output bytes.
+// number of output bytes. It does not change the underlying hash state.
 func (c *state) Sum(in []byte) []byte {
 	l := len(in)
 	// create buffer if nil has been provided
@@ -206,7 +206,9 @@ func (c *state) Sum(in []byte) []byte {
 	}
 
 	in = in[:l+c.Size()]
-	c.Read(in[l:])
+	// squeeze from a copy, so that caller can keep updating
+	dup := *c
+	dup.Read(in[l:])
 	return in
 }
 
-- 
2.43.0


From d4adf55aca082e584709a18350abd51c59e9d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 12/26] fix: sha3: don't crash when built with -race or
 -d=checkptr

---
 hash/sha3/xor_unaligned.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hash/sha3/xor_unaligned.go b/hash/sha3/xor_unaligned.go
index 30fff9c..8246314 100644
--- a/hash/sha3/xor_unaligned.go
+++ b/hash/sha3/xor_unaligned.go
@@ -18,6 +18,10 @@ func (b *storageBuf) asBytes() *[maxRate]byte {
 	return (*[maxRate]byte)(unsafe.Pointer(b))
 }
 
+//go:nocheckptr
+//
+// buf may be shorter than maxRate, which checkptr (enabled by -race) reports,
+// even though only len(buf)/8 words are ever accessed.
 func xorInUnaligned(d *state, buf []byte) {
 	n := len(buf)
 	bw := (*[maxRate / 8]uint64)(unsafe.Pointer(&buf[0]))[: n/8 : n/8]
-- 
2.43.0


From cbcb02d8146e190854d78859de19427728c4a3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 13/26] fix: sm3: return number of consumed bytes from Write

---
 hash/sm3/sm3.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hash/sm3/sm3.go b/hash/sm3/sm3.go
index 90c6eeb..835e7d0 100644
--- a/hash/sm3/sm3.go
+++ b/hash/sm3/sm3.go
@@ -56,6 +56,7 @@ func (d *digest) Reset() {
 }
 
 func (d *digest) Write(input []byte) (nn int, err error) {
+	nn = len(input)
 
 	// current possition in the buffer
 	idx := int(d.len & uint64((d.BlockSize() - 1)))
@@ -76,7 +77,7 @@ func (d *digest) Write(input []byte) (nn int, err error) {
 
 	// this eventually could be done in d.compress
 	copy(d.b[:], input[nblocks*d.BlockSize():])
-	return len(input), nil
+	return nn, nil
 }
 
 func (d *digest) Sum(in []byte) []byte {
-- 
2.43.0


From de29953abd95aa3ec461690204a7e69f2946201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 14/26] fix: aes: handle 128 and 192-bit keys and reject other
 sizes in AESAsm

---
 drbg/internal/aes/cipher_asm.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/drbg/internal/aes/cipher_asm.go b/drbg/internal/aes/cipher_asm.go
index e2738fd..998fcb4 100644
--- a/drbg/internal/aes/cipher_asm.go
+++ b/drbg/internal/aes/cipher_asm.go
@@ -21,22 +21,24 @@ func decryptBlockAsm(nr int, xk *uint32, dst, src *byte)
 func expandKeyAsm(nr int, key *byte, enc *uint32, dec *uint32)
 
 type AESAsm struct {
-	enc [32 + 28]uint32
-	dec [32 + 28]uint32
+	enc    [32 + 28]uint32
+	dec    [32 + 28]uint32
+	rounds int
 }
 
 func (c *AESAsm) SetKey(key []byte) error {
-	var rounds int
 	switch len(key) {
+	default:
+		return KeySizeError(len(key))
 	case 128 / 8:
-		rounds = 10
+		c.rounds = 10
 	case 192 / 8:
-		rounds = 12
+		c.rounds = 12
 	case 256 / 8:
-		rounds = 14
+		c.rounds = 14
 	}
 
-	expandKeyAsm(rounds, &key[0], &c.enc[0], &c.dec[0])
+	expandKeyAsm(c.rounds, &key[0], &c.enc[0], &c.dec[0])
 	return nil
 }
 
@@ -52,7 +54,7 @@ func (c *AESAsm) Encrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	encryptBlockAsm(len(c.enc)/4-1, &c.enc[0], &dst[0], &src[0])
+	encryptBlockAsm(c.rounds, &c.enc[0], &dst[0], &src[0])
 }
 
 func (c *AESAsm) Decrypt(dst, src []byte) {
@@ -65,7 +67,7 @@ func (c *AESAsm) Decrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	decryptBlockAsm(len(c.dec)/4-1, &c.dec[0], &dst[0], &src[0])
+	decryptBlockAsm(c.rounds, &c.dec[0], &dst[0], &src[0])
 }
 
 // expandKey is used by BenchmarkExpand to ensure that the asm implementation
-- 
2.43.0


From 467f85892e6da99f24473dfeca93faae4aa1dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 15/26] fix: sidh: set top bit of P434 2-torsion private keys

---
 dh/sidh/sidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index b3e923b..ae28363 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -215,7 +215,7 @@ func (prv *PrivateKey) Generate(rand io.Reader) error {
 	// space starts from 0, but I'm not comfortable with having low
 	// value scalars used for private keys. It is still secrure as per
 	// table 5.1 in [SIKE].
-	prv.Scalar[len(prv.Scalar)-1] |= 1 << ((dp.SecretBitLen % 8) - 1)
+	prv.Scalar[(dp.SecretBitLen-1)/8] |= 1 << ((dp.SecretBitLen - 1) % 8)
 
 	return nil
 }
-- 
2.43.0


From 54c312778bbe9c767c29b7c126f12c646e139551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 16/26] fix: sidh: report RNG failure from GeneratePrivateKey

---
 dh/sidh/sidh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index ae28363..226972e 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -310,8 +310,8 @@ func (c *PrivateKey) Init(fieldId uint8, v KeyVariant) {
 	}
 }
 
-func GeneratePrivateKey(prv *PrivateKey, rng io.Reader) {
-	prv.Generate(rng)
+func GeneratePrivateKey(prv *PrivateKey, rng io.Reader) error {
+	return prv.Generate(rng)
 }
 
 func GeneratePublicKey(pub *PublicKey, prv *PrivateKey) {
-- 
2.43.0


From 36804da56069c7be404c1a8101444dc7e93fdec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 17/26] fix: sidh: build pure Go P434 arithmetic on amd64 with
 noasm

---
 dh/sidh/internal/p434/arith_generic.go          | 2 +-
 dh/sidh/internal/templates/arith_generic.gotemp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/internal/p434/arith_generic.go b/dh/sidh/internal/p434/arith_generic.go
index 028012f..3a3bf99 100644
--- a/dh/sidh/internal/p434/arith_generic.go
+++ b/dh/sidh/internal/p434/arith_generic.go
@@ -1,7 +1,7 @@
 // Code generated by go generate; DO NOT EDIT.
 // This file was generated by robots.
 
-// +build noasm,arm64 !amd64
+// +build noasm !amd64
 
 package p434
 
diff --git a/dh/sidh/internal/templates/arith_generic.gotemp b/dh/sidh/internal/templates/arith_generic.gotemp
index b7c69b5..a61a0fa 100644
--- a/dh/sidh/internal/templates/arith_generic.gotemp
+++ b/dh/sidh/internal/templates/arith_generic.gotemp
@@ -1,7 +1,7 @@
 // Code generated by go generate; DO NOT EDIT.
 // This file was generated by robots.
 
-// +build {{if .OPT_ARM}}noasm !amd64,!arm64{{else}}noasm,arm64 !amd64{{end}}
+// +build {{if .OPT_ARM}}noasm !amd64,!arm64{{else}}noasm !amd64{{end}}
 
 package {{ .PACKAGE}}
 
-- 
2.43.0


From 263833d81e28aba4257d66b78a55126ef1a44763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 18/26] fix: csidh: use pure Go arithmetic on every platform
 but amd64

---
 dh/csidh/fp511_generic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/csidh/fp511_generic.go b/dh/csidh/fp511_generic.go
index 4d51009..032fb65 100644
--- a/dh/csidh/fp511_generic.go
+++ b/dh/csidh/fp511_generic.go
@@ -1,4 +1,4 @@
-// +build noasm arm64
+// +build noasm !amd64
 
 package csidh
 
-- 
2.43.0


From be7e12d65e4916bc411fac430ecbd915c2444927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 19/26] fix: drbg: build on platforms without assembly AES and
 with noasm

---
 drbg/internal/aes/asm_amd64.s     |  2 +-
 drbg/internal/aes/asm_arm64.s     |  2 +-
 drbg/internal/aes/cipher_asm.go   |  3 ++-
 drbg/internal/aes/cipher_noasm.go | 12 ++++++++++++
 4 files changed, 16 insertions(+), 3 deletions(-)
 create mode 100644 drbg/internal/aes/cipher_noasm.go

diff --git a/drbg/internal/aes/asm_amd64.s b/drbg/internal/aes/asm_amd64.s
index b51da88..4d8f347 100644
--- a/drbg/internal/aes/asm_amd64.s
+++ b/drbg/internal/aes/asm_amd64.s
@@ -2,7 +2,7 @@
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
 
-// +build amd64, !noasm
+// +build amd64,!noasm
 
 #include "textflag.h"
 
diff --git a/drbg/internal/aes/asm_arm64.s b/drbg/internal/aes/asm_arm64.s
index ef35d4f..14dc93a 100644
--- a/drbg/internal/aes/asm_arm64.s
+++ b/drbg/internal/aes/asm_arm64.s
@@ -2,7 +2,7 @@
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
 
-// +build arm64, !noasm
+// +build arm64,!noasm
 
 #include "textflag.h"
 DATA rotInvSRows<>+0x00(SB)/8, $0x080f0205040b0e01
diff --git a/drbg/internal/aes/cipher_asm.go b/drbg/internal/aes/cipher_asm.go
index 998fcb4..ef815e6 100644
--- a/drbg/internal/aes/cipher_asm.go
+++ b/drbg/internal/aes/cipher_asm.go
@@ -1,7 +1,8 @@
 // Copyright 2012 The Go Authors. All rights reserved.
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
-// +build amd64, !noasm
+
+// +build amd64,!noasm arm64,!noasm
 
 package aes
 
diff --git a/drbg/internal/aes/cipher_noasm.go b/drbg/internal/aes/cipher_noasm.go
new file mode 100644
index 0000000..abb4c5c
--- /dev/null
+++ b/drbg/internal/aes/cipher_noasm.go
@@ -0,0 +1,12 @@
+// +build noasm !amd64,!arm64
+
+package aes
+
+// AESAsm is the same as AES if there is no assembly implementation.
+type AESAsm struct {
+	AES
+}
+
+func expandKey(key []byte, enc, dec []uint32) {
+	expandKeyGo(key, enc, dec)
+}
-- 
2.43.0


From ab601cfbada64425b478b8208fe183694d42283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:47 +0000
Subject: [PATCH 20/26] fix: sha3: don't pad cSHAKE prefix that fills whole
 blocks already

bytepad (SP 800-185, 2.3.3) appends zeros only if the length isn't a
multiple of the rate.
---
 hash/sha3/shake.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hash/sha3/shake.go b/hash/sha3/shake.go
index 16f2634..499ca4d 100644
--- a/hash/sha3/shake.go
+++ b/hash/sha3/shake.go
@@ -54,8 +54,10 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
-	return append(buf, make([]byte, padlen)...)
+	if padlen := w - (len(buf) % w); padlen < w {
+		buf = append(buf, make([]byte, padlen)...)
+	}
+	return buf
 }
 
 func leftEncode(value uint64) []byte {
-- 
2.43.0


From 623efdb65d68c741d813fa9799d6059594749aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 21/26] fix: drbg: build with the appengine tag

---
 drbg/internal/aes/tools_appengine.go | 33 ++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)
 create mode 100644 drbg/internal/aes/tools_appengine.go

diff --git a/drbg/internal/aes/tools_appengine.go b/drbg/internal/aes/tools_appengine.go
new file mode 100644
index 0000000..c68de6f
--- /dev/null
+++ b/drbg/internal/aes/tools_appengine.go
@@ -0,0 +1,33 @@
+// Copyright 2018 The Go Authors. All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+// +build appengine
+
+package aes
+
+// This is the Google App Engine standard variant based on reflect
+// because the unsafe package and cgo are disallowed.
+
+import "reflect"
+
+// AnyOverlap reports whether x and y share memory at any (not necessarily
+// corresponding) index. The memory beyond the slice length is ignored.
+func AnyOverlap(x, y []byte) bool {
+	return len(x) > 0 && len(y) > 0 &&
+		reflect.ValueOf(&x[0]).Pointer() <= reflect.ValueOf(&y[len(y)-1]).Pointer() &&
+		reflect.ValueOf(&y[0]).Pointer() <= reflect.ValueOf(&x[len(x)-1]).Pointer()
+}
+
+// InexactOverlap reports whether x and y share memory at any non-corresponding
+// index. The memory beyond the slice length is ignored. Note that x and y can
+// have different lengths and still not have any inexact overlap.
+//
+// InexactOverlap can be used to implement the requirements of the crypto/cipher
+// AEAD, Block, BlockMode and Stream interfaces.
+func InexactOverlap(x, y []byte) bool {
+	if len(x) == 0 || len(y) == 0 || &x[0] == &y[0] {
+		return false
+	}
+	return AnyOverlap(x, y)
+}
-- 
2.43.0


From b07f0cda72ee511b79a3f8e96792225e322fa923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:47 +0000
Subject: [PATCH 22/26] fix: sidh: drop S of a SIKE private key initialized
 again as SIDH key

---
 dh/sidh/sidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index 226972e..6042b2a 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -305,6 +305,7 @@ func (c *PrivateKey) Init(fieldId uint8, v KeyVariant) {
 	} else {
 		c.Scalar = make([]byte, c.Params.B.SecretByteLen)
 	}
+	c.S = nil
 	if v == KeyVariantSike {
 		c.S = make([]byte, c.Params.MsgLen)
 	}
-- 
2.43.0


From 61814a10a311c40828f3fd81dd347c468540bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:31 +0000
Subject: [PATCH 23/26] fix: sike: refuse keys of another field when
 decapsulating

---
 dh/sidh/sike.go  | 4 ++++
 kem/mkem/sike.go | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index bb8a65f..458513a 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -122,6 +122,10 @@ func (c *KEM) Decapsulate(secret []byte, prv *PrivateKey, pub *PublicKey, cipher
 		panic("Public and private key are of different type")
 	}
 
+	if c.params.ID != pub.Params.ID || c.params.ID != prv.Params.ID {
+		panic("Keys are defined over different field")
+	}
+
 	if len(secret) < c.SharedSecretSize() {
 		panic("shared secret buffer to small")
 	}
diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 8a2635b..ac4e427 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -166,6 +166,10 @@ func (c *KEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.PublicK
 		panic("Public and private key are of different type")
 	}
 
+	if c.params.ID != pub.Params.ID || c.params.ID != prv.Params.ID {
+		panic("Keys are defined over different field")
+	}
+
 	if len(secret) < c.SharedSecretSize() {
 		panic("shared secret buffer to small")
 	}
@@ -303,6 +307,10 @@ func (c *MultiKEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.Pu
 		panic("Public and private key are of different type")
 	}
 
+	if c.params.ID != pub.Params.ID || c.params.ID != prv.Params.ID {
+		panic("Keys are defined over different field")
+	}
+
 	if len(secret) < c.SharedSecretSize() {
 		panic("shared secret buffer to small")
 	}
-- 
2.43.0


From 8d32a9e3a2b07cb1d4c4d635ebf6fa3941c4d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:33 +0000
Subject: [PATCH 24/26] fix: cSHAKE lengths of 256 MiB and more on 32-bit
 platforms

The length in bits was computed as int, which overflows there.
---
 hash/sha3/shake.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hash/sha3/shake.go b/hash/sha3/shake.go
index 499ca4d..6f4dcc0 100644
--- a/hash/sha3/shake.go
+++ b/hash/sha3/shake.go
@@ -78,9 +78,9 @@ func newCShake(N, S []byte, sfx byte, shaId uint8) ShakeHash {
 
 	// leftEncode returns max 9 bytes
 	b := make([]byte, 0, 9*2+len(N)+len(S))
-	b = append(b, leftEncode(uint64(len(N)*8))...)
+	b = append(b, leftEncode(uint64(len(N))*8)...)
 	b = append(b, N...)
-	b = append(b, leftEncode(uint64(len(S)*8))...)
+	b = append(b, leftEncode(uint64(len(S))*8)...)
 	b = append(b, S...)
 	c.initBlock = bytepad(b, c.BlockSize())
 	c.Write(c.initBlock)
-- 
2.43.0


From 4092608acb3bf49b0c5746eb21c4cc0bc53d58b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:48 +0000
Subject: [PATCH 25/26] fix: sidh: refuse to derive from two keys of the
 3-torsion group (SIKE and SIDH-B)

---
 dh/sidh/sidh.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index 6042b2a..e338317 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -252,15 +252,16 @@ func (prv *PrivateKey) GeneratePublicKey(pub *PublicKey) {
 	}
 }
 
-// Computes a SIDH shared secret. Function requires that pub has different
-// KeyVariant than prv. Length of returned output is 2*ceil(log_2 P)/8),
+// Computes a SIDH shared secret. Function requires that pub belongs to a different
+// torsion group than prv. Length of returned output is 2*ceil(log_2 P)/8),
 // where P is a prime defining finite field.
 //
 // Caller must make sure key SIDH key pair is not used more than once.
 func (prv *PrivateKey) DeriveSecret(ss []byte, pub *PublicKey) {
 	var isA = (prv.KeyVariant & KeyVariantSidhA) == KeyVariantSidhA
 
-	if (pub.KeyVariant == prv.KeyVariant) || (pub.Params.ID != prv.Params.ID) {
+	// SIKE keys belong to 3-torsion group, same as KeyVariantSidhB
+	if ((pub.KeyVariant & KeyVariantSidhA) == (prv.KeyVariant & KeyVariantSidhA)) || (pub.Params.ID != prv.Params.ID) {
 		panic("sidh: public and private are incompatbile")
 	}
 
-- 
2.43.0


From e21f2c59e27329aeb1276ddc082d13a71d2dbd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:48 +0000
Subject: [PATCH 26/26] fix: mkem: MultiKEM.Reset left the secret shared with a
 recipient in the object

---
 kem/mkem/sike.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index ac4e427..6c93024 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -393,6 +393,16 @@ func (c *KEM) Reset() {
 	}
 }
 
+// Resets internal state of multi KEM, but keeps the ciphertexts. Function should
+// be used after Allocate and between subsequent calls to Encapsulate and/or
+// Decapsulate.
+func (c *MultiKEM) Reset() {
+	c.KEM.Reset()
+	for i := range c.j {
+		c.j[i] = 0
+	}
+}
+
 // Returns size of resulting ciphertext.
 func (c *KEM) CiphertextSize() int {
 	return c.params.CiphertextSize
-- 
2.43.0

