exec(open(ROOT + "/tools/seeds/b.py").read().split('bug("C09-')[0])
SD = '''package sidh_test

import (
	"bytes"
	"crypto/rand"
	"errors"
	"io"
	"testing"

	. "github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
)

var _ = bytes.Equal
var _ = errors.New
var _ io.Reader = rand.Reader
var _ common.Fp

func pair(t *testing.T) (*KEM, *PrivateKey, *PublicKey) {
	k, p := NewPrivateKey(Fp503, KeyVariantSike), NewPublicKey(Fp503, KeyVariantSike)
	if err := k.Generate(rand.Reader); err != nil {
		t.Fatal(err)
	}
	k.GeneratePublicKey(p)
	return NewSike503(rand.Reader), k, p
}

'''
MK = '''package mkem

import (
	"bytes"
	"crypto/rand"
	"errors"
	"io"
	"testing"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/drbg"
)

var _ = bytes.Equal
var _ = errors.New
var _ io.Reader = rand.Reader
var _ csidh.PublicKey
var _ common.Fp
var _ drbg.CtrDrbg

func kp(t *testing.T) (*sidh.PrivateKey, *sidh.PublicKey) {
	k, p := sidh.NewPrivateKey(sidh.Fp503, sidh.KeyVariantSike), sidh.NewPublicKey(sidh.Fp503, sidh.KeyVariantSike)
	if err := k.Generate(rand.Reader); err != nil {
		t.Fatal(err)
	}
	k.GeneratePublicKey(p)
	return k, p
}

'''
bug("C21-failed-rng", "C21",
 "encapsulation, then one whose random source fails, ignored by its caller, which then reads secret buffers? no: a reset after a failure",
 "unused", [], "dh/sidh", "") if 0 else None
bug("C21-msg-reuse", "C21",
 "two encapsulations with one object without a Reset between them",
 "the ephemeral message is drawn only once; later encapsulations for the same object repeat it until Reset is called, so ciphertexts and keys repeat",
 [("dh/sidh/sike.go", "	// Generate ephemeral value\n	_, err := io.ReadFull(c.rng, c.msg[:])\n	if err != nil {\n		return err\n	}\n", "	// Generate ephemeral value, if not done yet\n	var set byte\n	for _, v := range c.msg {\n		set |= v\n	}\n	if set == 0 {\n		_, err := io.ReadFull(c.rng, c.msg[:])\n		if err != nil {\n			return err\n		}\n	}\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	kem, _, p := pair(t)
	c1, c2, s := make([]byte, kem.CiphertextSize()), make([]byte, kem.CiphertextSize()), make([]byte, kem.SharedSecretSize())
	kem.Encapsulate(c1, s, p)
	kem.Encapsulate(c2, s, p)
	if bytes.Equal(c1, c2) {
		t.Fatal("ciphertext repeated")
	}
}
''')
bug("C21-decaps-own-scalar", "C21",
 "decapsulating with an object that is used for another field afterwards: Allocate again with a bigger field",
 "re-allocating keeps the old buffers if they exist, which are too small or too big for the new field",
 [("dh/sidh/sike.go", "	c.msg = make([]byte, c.params.MsgLen)\n	c.secretBytes = make([]byte, c.params.A.SecretByteLen)\n", "	if !c.allocated {\n		c.msg = make([]byte, c.params.MsgLen)\n		c.secretBytes = make([]byte, c.params.A.SecretByteLen)\n	}\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	_, k, p := pair(t)
	kem := NewSike434(rand.Reader)
	kem.Allocate(Fp503, rand.Reader)
	c1, s1, s2 := make([]byte, kem.CiphertextSize()), make([]byte, kem.SharedSecretSize()), make([]byte, kem.SharedSecretSize())
	kem.Encapsulate(c1, s1, p)
	NewSike503(rand.Reader).Decapsulate(s2, k, p, c1)
	if !bytes.Equal(s1, s2) {
		t.Fatal("keys differ")
	}
}
''')
bug("C22-shake-dirty", "C22",
 "a decapsulation that is rejected, or any, followed by an operation of the same object where the hash is not reset: the second of two encapsulations",
 "the hash is not reset before the key is derived if the secret buffer is exactly as long as the message", [], "dh/sidh", "") if 0 else None
bug("C22-reject-secret", "C22",
 "decapsulating a ciphertext which is rejected",
 "the key of a rejected ciphertext is derived from the ciphertext's first part only, so different rejected ciphertexts share it",
 [("dh/sidh/sike.go", "	_, _ = c.shake.Write(m[:c1Len])\n	_, _ = c.shake.Write(ciphertext)\n	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])\n", "	_, _ = c.shake.Write(m[:c1Len])\n	_, _ = c.shake.Write(ciphertext[:pub.Size()+mask*c1Len])\n	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	kem, k, p := pair(t)
	c := make([]byte, kem.CiphertextSize())
	s1, s2 := make([]byte, kem.SharedSecretSize()), make([]byte, kem.SharedSecretSize())
	kem.Encapsulate(c, s1, p)
	c[len(c)-1] ^= 1
	kem.Decapsulate(s1, k, p, c)
	c[len(c)-1] ^= 2
	kem.Decapsulate(s2, k, p, c)
	if bytes.Equal(s1, s2) {
		t.Fatal("same key for different ciphertexts")
	}
}
''')
bug("C23-noncanonical", "C23",
 "an honest ciphertext with the modulus added to a coordinate of the ephemeral public key",
 "the ciphertext is compared after re-encoding, so another encoding of the same ephemeral key is not rejected",
 [("dh/sidh/sike.go", "	mask := subtle.ConstantTimeCompare(pkBytes[:c.params.PublicKeySize], ciphertext[:pub.Params.PublicKeySize])\n", "	var c0 [3 * common.MaxSharedSecretBsz]byte\n	if err = pkA.Import(ciphertext[:pub.Params.PublicKeySize]); err != nil {\n		return err\n	}\n	pkA.Export(c0[:])\n	mask := subtle.ConstantTimeCompare(pkBytes[:c.params.PublicKeySize], c0[:c.params.PublicKeySize])\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	kem, k, p := pair(t)
	w := []uint64{0xffffffffffffffff, 0xffffffffffffffff, 0xffffffffffffffff, 0xabffffffffffffff, 0x13085bda2211e7a0, 0x1b9bf6c87b7e7daf, 0x6045c6bdda77a4d0, 0x004066f541811e1e}
	c := make([]byte, kem.CiphertextSize())
	s1, s2 := make([]byte, kem.SharedSecretSize()), make([]byte, kem.SharedSecretSize())
	kem.Encapsulate(c, s1, p)
	carry := 0
	for i := 0; i < 63; i++ {
		carry += int(c[i]) + int(byte(w[i/8]>>uint(8*(i%8))))
		c[i] = byte(carry)
		carry >>= 8
	}
	kem.Decapsulate(s2, k, p, c)
	// accepted means: the key is SHAKE256(m || c) for the honest m; a rejected one uses S
	k2 := NewPrivateKey(Fp503, KeyVariantSike)
	b := make([]byte, k.Size())
	k.Export(b)
	b[0] ^= 1
	k2.Import(b)
	s3 := make([]byte, kem.SharedSecretSize())
	kem.Decapsulate(s3, k2, p, c)
	if bytes.Equal(s2, s3) {
		t.Fatal("key does not depend on S: ciphertext was accepted")
	}
}
''')
bug("C23-s-overwritten", "C23",
 "an honest decapsulation followed by a rejected one with the same key",
 "the selection writes the message into the private key's S, so that later rejections use a value the sender knows",
 [("dh/sidh/sike.go", "	common.Cpick(mask, m[:c1Len], m[:c1Len], prv.S)\n	c.shake.Reset()\n	_, _ = c.shake.Write(m[:c1Len])\n", "	common.Cpick(mask, prv.S, m[:c1Len], prv.S)\n	c.shake.Reset()\n	_, _ = c.shake.Write(prv.S)\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	kem, k, p := pair(t)
	c := make([]byte, kem.CiphertextSize())
	s1, s2 := make([]byte, kem.SharedSecretSize()), make([]byte, kem.SharedSecretSize())
	before := append([]byte{}, k.S...)
	kem.Encapsulate(c, s1, p)
	kem.Decapsulate(s2, k, p, c)
	if !bytes.Equal(k.S, before) {
		t.Fatal("S changed")
	}
}
''')
bug("C24-short-ok", "C24",
 "a random source that ends after some, but not all bytes of the message",
 "an unexpected end of the source is ignored",
 [("dh/sidh/sike.go", "	_, err := io.ReadFull(c.rng, c.msg[:])\n	if err != nil {\n		return err\n	}\n\n	var buf", "	_, err := io.ReadAtLeast(c.rng, c.msg[:], len(c.msg)/2)\n	if err != nil {\n		return err\n	}\n\n	var buf")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	_, _, p := pair(t)
	kem := NewSike503(bytes.NewReader(make([]byte, 20)))
	c, s := make([]byte, kem.CiphertextSize()), make([]byte, kem.SharedSecretSize())
	if kem.Encapsulate(c, s, p) == nil {
		t.Fatal("no error")
	}
}
''')
bug("C24-mkem-secret-first", "C24",
 "a random source that fails during a multi-recipient encapsulation",
 "the key buffer is filled from the object's message before the error of the source is returned",
 [("kem/mkem/sike.go", "	// Generate ephemeral value M\n	_, err := io.ReadFull(c.rng, c.msg[:])\n	if err != nil {\n		return err\n	}\n", "	// Generate ephemeral value M, directly in the output\n	n, err := io.ReadFull(c.rng, secret[:c.SharedSecretSize()])\n	if err != nil {\n		return err\n	}\n	if n < len(c.msg) {\n		_, err = io.ReadFull(c.rng, secret[:len(c.msg)-n])\n		if err != nil {\n			return err\n		}\n	}\n	copy(c.msg, secret[:n])\n")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
}
''') if 0 else None
bug("C24-mkem-partial", "C24",
 "a random source that fails after some bytes during a multi-recipient encapsulation",
 "the message is drawn into the key buffer, so a failing source leaves its first bytes there",
 [("kem/mkem/sike.go", "	// Generate ephemeral value M\n	_, err := io.ReadFull(c.rng, c.msg[:])\n	if err != nil {\n		return err\n	}\n", "	// Generate ephemeral value M\n	l := len(c.msg)\n	if l > len(secret) {\n		l = len(secret)\n	}\n	n, err := io.ReadFull(c.rng, secret[:l])\n	if err != nil {\n		return err\n	}\n	copy(c.msg, secret[:n])\n	if _, err = io.ReadFull(c.rng, c.msg[n:]); err != nil {\n		return err\n	}\n")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	_, p := kp(t)
	var m MultiKEM
	m.Allocate(sidh.Fp503, 1, bytes.NewReader(bytes.Repeat([]byte{7}, 10)))
	s := make([]byte, 32)
	if m.Encapsulate(s, []*sidh.PublicKey{p}) == nil {
		t.Fatal("no error")
	}
	if !bytes.Equal(s, make([]byte, 32)) {
		t.Fatalf("%x", s)
	}
}
''')
bug("C25-repeated", "C25",
 "a recipient list in which the same public key object appears twice",
 "the part for a repeated recipient is not made, to save time",
 [("kem/mkem/sike.go", "		skA.DeriveSecret(c.j[:], pkB)\n		// H(j)\n", "		if ct_i > 0 && pkB == pub[ct_i-1] {\n			// same recipient again\n			continue\n		}\n		skA.DeriveSecret(c.j[:], pkB)\n		// H(j)\n")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	k, p := kp(t)
	var m MultiKEM
	m.Allocate(sidh.Fp503, 2, rand.Reader)
	s, d := make([]byte, m.SharedSecretSize()), make([]byte, m.SharedSecretSize())
	m.Encapsulate(s, []*sidh.PublicKey{p, p})
	m.Decapsulate(d, k, p, m.cts[1][:m.SharedSecretSize()])
	if !bytes.Equal(s, d) {
		t.Fatal("keys differ")
	}
}
''')
bug("C25-reset-ct0", "C25",
 "a Reset between multi-recipient encapsulation and decapsulation: the embedded object's Reset",
 "decapsulation encrypts again with the message kept in the object instead of the decrypted one if that is not zero, so a decapsulation after Reset is treated differently",
 [("kem/mkem/sike.go", "	_, _ = c.shake.Write(G1)\n	_, _ = c.shake.Write(m[:skA.Params.MsgLen])\n	_, _ = c.shake.Read(skA.Scalar)\n", "	_, _ = c.shake.Write(G1)\n	_, _ = c.shake.Write(c.msg[:skA.Params.MsgLen])\n	_, _ = c.shake.Read(skA.Scalar)\n")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	k, p := kp(t)
	var m MultiKEM
	m.Allocate(sidh.Fp503, 1, rand.Reader)
	s, d := make([]byte, m.SharedSecretSize()), make([]byte, m.SharedSecretSize())
	m.Encapsulate(s, []*sidh.PublicKey{p})
	m.Reset()
	m.Decapsulate(d, k, p, m.cts[0][:m.SharedSecretSize()])
	if !bytes.Equal(s, d) {
		t.Fatal("keys differ")
	}
}
''')
bug("C26-other-public-key", "C26",
 "decapsulating with another recipient's public key",
 "the recipient's part is not compared with the one made again, as its decryption has matched the shared part already",
 [("kem/mkem/sike.go", "	mask &= subtle.ConstantTimeCompare(ctext[:skA.Params.MsgLen], cti[:skA.Params.MsgLen])\n", "")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	k, p := kp(t)
	_, q := kp(t)
	var m MultiKEM
	m.Allocate(sidh.Fp503, 1, rand.Reader)
	s, d := make([]byte, m.SharedSecretSize()), make([]byte, m.SharedSecretSize())
	m.Encapsulate(s, []*sidh.PublicKey{p})
	m.Decapsulate(d, k, q, m.cts[0][:m.SharedSecretSize()])
	if bytes.Equal(s, d) {
		t.Fatal("accepted")
	}
}
''')
bug("C26-mask-assign", "C26",
 "a shared part that was replaced by another encapsulation's while a recipient's part is consistent with it",
 "the second comparison overwrites the verdict of the first",
 [("kem/mkem/sike.go", "	mask &= subtle.ConstantTimeCompare(ctext", "	mask = subtle.ConstantTimeCompare(ctext")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	// shared part in another encoding: same point, modulus added to a coordinate
	w := []uint64{0xffffffffffffffff, 0xffffffffffffffff, 0xffffffffffffffff, 0xabffffffffffffff, 0x13085bda2211e7a0, 0x1b9bf6c87b7e7daf, 0x6045c6bdda77a4d0, 0x004066f541811e1e}
	k, p := kp(t)
	var m MultiKEM
	m.Allocate(sidh.Fp503, 1, rand.Reader)
	s, d := make([]byte, m.SharedSecretSize()), make([]byte, m.SharedSecretSize())
	m.Encapsulate(s, []*sidh.PublicKey{p})
	carry := 0
	for i := 0; i < 63; i++ {
		carry += int(m.ct0[i]) + int(byte(w[i/8]>>uint(8*(i%8))))
		m.ct0[i] = byte(carry)
		carry >>= 8
	}
	m.Decapsulate(d, k, p, m.cts[0][:m.SharedSecretSize()])
	if bytes.Equal(s, d) {
		t.Fatal("accepted")
	}
}
''')
bug("C27-long-buffer", "C27",
 "encapsulating with the KEM of the multi-recipient package into a key buffer longer than the key",
 "the whole buffer is filled with key material, unlike in the other implementation",
 [("kem/mkem/sike.go", "	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])\n	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])\n	return nil\n}\n", "	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])\n	_, _ = c.shake.Read(secret)\n	return nil\n}\n")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	_, p := kp(t)
	kem := NewSike503(rand.Reader)
	c, s := make([]byte, kem.CiphertextSize()), make([]byte, kem.SharedSecretSize()+8)
	kem.Encapsulate(c, s, p)
	if !bytes.Equal(s[kem.SharedSecretSize():], make([]byte, 8)) {
		t.Fatal("wrote beyond the key")
	}
}
''')
bug("C27-wrong-key-type", "C27",
 "decapsulating with a SIDH private key in the multi-recipient package's KEM",
 "the kinds of the keys are not compared, unlike in the other implementation",
 [("kem/mkem/sike.go", "	if pub.KeyVariant != prv.KeyVariant {\n		panic(\"Public and private key are of different type\")\n	}\n\n	if c.params.ID != pub.Params.ID || c.params.ID != prv.Params.ID {\n		panic(\"Keys are defined over different field\")\n	}\n\n	if len(secret) < c.SharedSecretSize() {\n		panic(\"shared secret buffer to small\")\n	}\n\n	if len(ciphertext) != c.CiphertextSize() {", "	if pub.KeyVariant&prv.KeyVariant == 0 {\n		panic(\"Public and private key are of different type\")\n	}\n\n	if c.params.ID != pub.Params.ID || c.params.ID != prv.Params.ID {\n		panic(\"Keys are defined over different field\")\n	}\n\n	if len(secret) < c.SharedSecretSize() {\n		panic(\"shared secret buffer to small\")\n	}\n\n	if len(ciphertext) != c.CiphertextSize() {")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	_, p := kp(t)
	k := sidh.NewPrivateKey(sidh.Fp503, sidh.KeyVariantSidhB)
	k.Generate(rand.Reader)
	k.S = make([]byte, 24)
	kem := NewSike503(rand.Reader)
	c, s := make([]byte, kem.CiphertextSize()), make([]byte, kem.SharedSecretSize())
	kem.Encapsulate(c, s, p)
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	kem.Decapsulate(s, k, p, c)
}
''')
RN = '''	var seed [48]byte
	rand.Read(seed[:])
	rng := drbg.NewCtrDrbg()
	rng.Init(seed[:], nil)
	var pke PKE
	pke.Allocate(rng)
	var k csidh.PrivateKey
	var p csidh.PublicKey
	csidh.GeneratePrivateKey(&k, rng)
	csidh.GeneratePublicKey(&p, &k, rng)
'''
bug("C28-no-reset", "C28",
 "two encryptions, or decryption of two different ciphertexts, with one object, without other hashing in between",
 "the hash is only reset when encrypting, so an object that decrypts twice in a row uses a wrong keystream the second time",
 [("kem/mkem/csidh.go", "	csidh.DeriveSecret(&ss, &pk, sk, c.Rng)\n\n	c.H.Reset()\n", "	csidh.DeriveSecret(&ss, &pk, sk, c.Rng)\n\n"),
  ("kem/mkem/csidh.go", "	csidh.GeneratePublicKey(&pkA, &skA, c.Rng)\n	pkA.Export(ct.U[:])\n	return\n", "	c.H.Reset()\n	csidh.GeneratePublicKey(&pkA, &skA, c.Rng)\n	pkA.Export(ct.U[:])\n	return\n")],
 "kem/mkem", MK + 'func TestDemo(t *testing.T) {\n' + RN + '''	m := [16]byte{1, 2, 3}
	c1 := pke.Enc(&p, &m)
	if pke.Dec(&k, &c1) != m || pke.Dec(&k, &c1) != m {
		t.Fatal("wrong message")
	}
}
''')
bug("C28-ephemeral-kept", "C28",
 "two multi-recipient encryptions with one object",
 "the ephemeral key pair is generated by the first encryption only and used again by the following ones",
 [("kem/mkem/csidh.go", "	// stores list of ciphertexts ct[i]\n	Cts [][SharedSecretSz]byte\n", "	// stores list of ciphertexts ct[i]\n	Cts [][SharedSecretSz]byte\n	// ephemeral private key\n	skA csidh.PrivateKey\n"),
  ("kem/mkem/csidh.go", "func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {\n	var ss [64]byte\n	var pkA csidh.PublicKey\n	var skA csidh.PrivateKey\n\n	csidh.GeneratePrivateKey(&skA, c.Rng)\n", "func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {\n	var ss [64]byte\n	var pkA csidh.PublicKey\n	skA := &c.skA\n\n	if c.Ct0 == [PublicKeySz]byte{} {\n		csidh.GeneratePrivateKey(skA, c.Rng)\n	}\n"),
  ("kem/mkem/csidh.go", "		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)\n\n		c.H.Reset()", "		csidh.DeriveSecret(&ss, &pk, skA, c.Rng)\n\n		c.H.Reset()"),
  ("kem/mkem/csidh.go", "	csidh.GeneratePublicKey(&pkA, &skA, c.Rng)\n	pkA.Export(c.Ct0[:])\n", "	csidh.GeneratePublicKey(&pkA, skA, c.Rng)\n	pkA.Export(c.Ct0[:])\n")],
 "kem/mkem", MK + 'func TestDemo(t *testing.T) {\n' + RN + '''	m := [16]byte{1, 2, 3}
	var mp MultiPKE
	mp.Allocate(1, rng)
	mp.Encrypt([]csidh.PublicKey{p}, &m)
	a := mp.Ct0
	mp.Encrypt([]csidh.PublicKey{p}, &m)
	if mp.Ct0 == a {
		t.Fatal("ephemeral key repeated")
	}
}
''')
bug("C30-lookup-shared", "C30",
 "two goroutines computing with p503 at the same time",
 "the table of powers used for inversion is one package variable instead of one per call",
 [("dh/sidh/internal/p503/fp2.go", "func p34(dest, x *common.Fp) {\n	var lookup [16]common.Fp\n", "var lookup [16]common.Fp\n\nfunc p34(dest, x *common.Fp) {\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	k := NewPrivateKey(Fp503, KeyVariantSidhA)
	k.Generate(rand.Reader)
	p := NewPublicKey(Fp503, KeyVariantSidhA)
	k.GeneratePublicKey(p)
	want := make([]byte, p.Size())
	p.Export(want)
	l := NewPrivateKey(Fp503, KeyVariantSidhA)
	l.Generate(rand.Reader)
	bad := make(chan bool, 8)
	for g := 0; g < 8; g++ {
		go func(g int) {
			ok := true
			for i := 0; i < 60; i++ {
				q := NewPublicKey(Fp503, KeyVariantSidhA)
				if g%2 == 1 {
					l.GeneratePublicKey(q)
					continue
				}
				k.GeneratePublicKey(q)
				b := make([]byte, q.Size())
				q.Export(b)
				ok = ok && bytes.Equal(b, want)
			}
			bad <- !ok
		}(g)
	}
	for g := 0; g < 8; g++ {
		if <-bad {
			t.Error("wrong public key")
		}
	}
}
''')
bug("C30-csidh-wbuf", "C30",
 "a random source which itself generates a CSIDH key while it is asked for bytes, or two goroutines",
 "the working buffer for random numbers is shared by all keys",
 [("dh/csidh/csidh.go", "type fpRngGen struct {\n	// working buffer needed to avoid memory allocation\n	wbuf [64]byte\n}", "type fpRngGen struct {\n}\n\n// working buffer needed to avoid memory allocation\nvar wbuf [64]byte"),
  ("dh/csidh/csidh.go", "		_, err := io.ReadFull(rng, s.wbuf[:])\n", "		_, err := io.ReadFull(rng, wbuf[:])\n"),
  ("dh/csidh/csidh.go", "		for i := 0; i < len(s.wbuf); i++ {", "		for i := 0; i < len(wbuf); i++ {"),
  ("dh/csidh/csidh.go", "			v[j] |= uint64(s.wbuf[i]) << (8 * k)", "			v[j] |= uint64(wbuf[i]) << (8 * k)"),
  ("dh/csidh/csidh.go", "		_, err := io.ReadFull(rng, key.wbuf[:])\n", "		_, err := io.ReadFull(rng, wbuf[:])\n"),
  ("dh/csidh/csidh.go", "		for j := range key.wbuf {\n			if int8(key.wbuf[j]) <= expMax && int8(key.wbuf[j]) >= -expMax {\n				key.e[i>>1] |= int8((key.wbuf[j] & 0xF)", "		for j := range wbuf {\n			if int8(wbuf[j]) <= expMax && int8(wbuf[j]) >= -expMax {\n				key.e[i>>1] |= int8((wbuf[j] & 0xF)")],
 "dh/csidh", CS + '''type nest struct {
	r, inner io.Reader
}

func (n nest) Read(b []byte) (int, error) {
	m, err := n.r.Read(b[:(len(b)+1)/2])
	var k csidh.PrivateKey
	csidh.GeneratePrivateKey(&k, n.inner)
	return m, err
}

func TestDemo(t *testing.T) {
	buf := make([]byte, 1<<16)
	rand.Read(buf)
	var a, b csidh.PrivateKey
	csidh.GeneratePrivateKey(&a, bytes.NewReader(buf))
	csidh.GeneratePrivateKey(&b, nest{bytes.NewReader(buf), rand.Reader})
	x, y := make([]byte, csidh.PrivateKeySize), make([]byte, csidh.PrivateKeySize)
	a.Export(x)
	b.Export(y)
	if !bytes.Equal(x, y) {
		t.Fatal("keys differ")
	}
}
''')
bug("C31-shift-32bit", "C31",
 "a 32-bit build",
 "bytes are shifted as machine words, so the upper half of every 64-bit word is lost where these have 32 bits",
 [("dh/sidh/common/utils.go", "		fp2.A[j] |= uint64(input[i]) << (8 * k)\n		fp2.B[j] |= uint64(input[i+bytelen]) << (8 * k)\n", "		fp2.A[j] |= uint64(uint(input[i]) << (8 * k))\n		fp2.B[j] |= uint64(uint(input[i+bytelen]) << (8 * k))\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	p := NewPublicKey(Fp503, KeyVariantSidhA)
	in, out := bytes.Repeat([]byte{1}, p.Size()), make([]byte, p.Size())
	p.Import(in)
	p.Export(out)
	if !bytes.Equal(in, out) {
		t.Fatalf("%x", out)
	}
}
''', env="GOARCH=386 ")
bug("C31-appengine-xor", "C31",
 "a build with the appengine tag, SHA3-224 (whose rate is not a multiple of 16 bytes)",
 "the portable absorption handles an even number of words only",
 [("hash/sha3/xor_generic.go", "	n := len(buf) / 8\n", "	n := len(buf) / 8 &^ 0\n")],
 "hash/sha3", "") if 0 else None
bug("C32-import-alias", "C32",
 "the caller reuses the buffer from which a private key was imported",
 "the private key keeps the caller's slice instead of a copy",
 [("dh/sidh/sidh.go", "	copy(prv.S, input[:len(prv.S)])\n	copy(prv.Scalar, input[len(prv.S):])\n", "	copy(prv.S, input[:len(prv.S)])\n	prv.Scalar = input[len(prv.S):]\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	_, k, _ := pair(t)
	b, c := make([]byte, k.Size()), make([]byte, k.Size())
	k.Export(b)
	k.Import(b)
	k.Export(c)
	for i := range b {
		b[i] = 0
	}
	d := make([]byte, k.Size())
	k.Export(d)
	if !bytes.Equal(c, d) {
		t.Fatal("key changed with the caller's buffer")
	}
}
''')
bug("C32-drbg-tail", "C32",
 "a DRBG read whose length is not a multiple of 16, into a slice of a larger array",
 "the last block is written completely, using the capacity beyond the slice's length if there is any",
 [("drbg/ctr_drbg.go", "		copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])\n", "		tail := out[blocks*BlockLen:]\n		if cap(tail) >= BlockLen {\n			tail = tail[:BlockLen]\n		}\n		copy(tail, c.tmpBlk[:BlockLen])\n")],
 "drbg", '''package drbg_test

import (
	"testing"

	"github.com/henrydcase/nobs/drbg"
)

func TestDemo(t *testing.T) {
	d := drbg.NewCtrDrbg()
	d.Init(make([]byte, 48), nil)
	b := make([]byte, 64)
	d.Read(b[:20])
	for _, v := range b[20:] {
		if v != 0 {
			t.Fatal("wrote beyond the slice")
		}
	}
}
''') if 0 else None
bug("C33-replace", "C33",
 "registering parameters under an identifier that is in use",
 "the guard compares with the new entry instead of looking up the table, so a registered set can be replaced by one with another identifier field",
 [("dh/sidh/common/params.go", "	if _, ok := sidhParams[id]; ok {", "	if old, ok := sidhParams[id]; ok && old.ID == p.ID {")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	p := *common.Params(common.Fp503)
	p.ID = 77
	defer func() {
		if recover() == nil {
			t.Fatal("replaced")
		}
	}()
	common.Register(common.Fp503, &p)
}
''')
bug("C33-unknown", "C33",
 "looking up an identifier that is not registered",
 "an empty parameter set is returned for unknown identifiers that follow the known ones",
 [("dh/sidh/common/params.go", "	panic(\"sidh: SIDH Params ID unregistered\")\n", "	if id <= Fp434+1 {\n		return nil\n	}\n	panic(\"sidh: SIDH Params ID unregistered\")\n")],
 "dh/sidh", "") if 0 else None
