exec(open(ROOT + "/tools/seeds/e.py").read().split('\nbug("')[0])
CS_, SD_, MK_, IN_ = CS, SD, MK, IN
exec(open(ROOT + "/tools/seeds/d.py").read().split('cbug("')[0])
CS, SD, MK, IN = CS_, SD_, MK_, IN_

bug("C02-refused-write", "C02",
 "a write that is refused because output was read already, then further reads",
 "the refused write discards the unread rest of the current block of output",
 [("hash/sha3/sha3.go", "	if c.isSquezing {\n		return 0, ErrWriteAfterRead\n	}\n", "	if c.isSquezing {\n		c.idx = 0\n		return 0, ErrWriteAfterRead\n	}\n")],
 "hash/sha3", '''package sha3

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	h, g := NewShake128(), NewShake128()
	a, b := make([]byte, 10), make([]byte, 10)
	h.Read(a)
	g.Read(b)
	func() {
		defer func() { recover() }()
		h.Write([]byte("x"))
	}()
	h.Read(a)
	g.Read(b)
	if !bytes.Equal(a, b) {
		t.Fatal("the refused write changed the output")
	}
}
''')

bug("C03-reset-high", "C03",
 "a reset after more than 512 MiB, then another message",
 "Reset clears the position in the block, but not the high bits of the message length",
 [("hash/sm3/sm3.go", "	d.len = 0\n", "	d.len &^= 1<<29 - 1\n")],
 "hash/sm3", '''package sm3

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	h := New()
	want := h.Sum(nil)
	b := make([]byte, 1<<20)
	for i := 0; i < 513; i++ {
		h.Write(b)
	}
	h.Reset()
	if !bytes.Equal(h.Sum(nil), want) {
		t.Fatal("Reset left something of a long message")
	}
}
''')

bug("C30-drbg-tmp", "C30",
 "two goroutines with a generator of their own each",
 "the temporary block of all generators is one package variable",
 [("drbg/ctr_drbg.go", "	tmpBlk     [3 * BlockLen]byte\n}", "}\n\n// used within a call only\nvar tmpBlk [3 * BlockLen]byte"),
  ("drbg/ctr_drbg.go", "		c.blockEnc.Encrypt(c.tmpBlk[i:], c.v[:])", "		c.blockEnc.Encrypt(tmpBlk[i:], c.v[:])"),
  ("drbg/ctr_drbg.go", "		c.tmpBlk[i] ^= data[i]", "		tmpBlk[i] ^= data[i]"),
  ("drbg/ctr_drbg.go", "	copy(c.key[:], c.tmpBlk[:KeyLen])\n	copy(c.v[:], c.tmpBlk[KeyLen:])", "	copy(c.key[:], tmpBlk[:KeyLen])\n	copy(c.v[:], tmpBlk[KeyLen:])"),
  ("drbg/ctr_drbg.go", "		c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])\n		copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])", "		c.blockEnc.Encrypt(tmpBlk[:], c.v[:])\n		copy(out[blocks*BlockLen:], tmpBlk[:len(out)%BlockLen])")],
 "drbg", '''package drbg

import (
	"bytes"
	"testing"
)

func run(n int) []byte {
	d := NewCtrDrbg()
	d.Init(make([]byte, 48), nil)
	b := make([]byte, 33)
	for i := 0; i < n; i++ {
		d.Read(b)
	}
	return b
}

func TestDemo(t *testing.T) {
	const n = 20000
	want := run(n)
	bad := make(chan bool, 8)
	for g := 0; g < 8; g++ {
		go func() { bad <- !bytes.Equal(run(n), want) }()
	}
	for g := 0; g < 8; g++ {
		if <-bad {
			t.Fatal("generators disturb each other")
		}
	}
}
''')

bug("C30-mkem-shake", "C30",
 "an encapsulation during which the random source uses another object, or two goroutines with an object each",
 "all objects of the multi-recipient KEM use one hash object",
 [("kem/mkem/sike.go", "func (c *MultiKEM) Allocate(id uint8, recipients_nb uint, rng io.Reader) {\n	c.rng = rng\n	c.params = common.Params(id)\n	c.msg = make([]byte, c.params.MsgLen)\n	c.secretBytes = make([]byte, c.params.A.SecretByteLen)\n	c.shake = sha3.NewShake256()",
   "var sharedShake = sha3.NewShake256()\n\nfunc (c *MultiKEM) Allocate(id uint8, recipients_nb uint, rng io.Reader) {\n	c.rng = rng\n	c.params = common.Params(id)\n	c.msg = make([]byte, c.params.MsgLen)\n	c.secretBytes = make([]byte, c.params.A.SecretByteLen)\n	c.shake = sharedShake")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	bad := make(chan bool, 16)
	for g := 0; g < 16; g++ {
		go func() {
			ok := true
			var k MultiKEM
			k.Allocate(common.Fp434, 1, rand.Reader)
			prv, pub := k.NewPrivateKey(), k.NewPublicKey()
			prv.Generate(rand.Reader)
			prv.GeneratePublicKey(pub)
			s, s2 := make([]byte, k.SharedSecretSize()), make([]byte, k.SharedSecretSize())
			for i := 0; i < 150; i++ {
				func() {
					defer func() {
						if recover() != nil {
							ok = false
						}
					}()
					k.Encapsulate(s, []*sidh.PublicKey{pub})
					k.Decapsulate(s2, prv, pub, k.cts[0][:k.SharedSecretSize()])
				}()
				ok = ok && bytes.Equal(s, s2)
			}
			bad <- !ok
		}()
	}
	for g := 0; g < 16; g++ {
		if <-bad {
			t.Fatal("objects disturb each other")
		}
	}
}
''')

cbug("C29-export-zero-limbs", "two private keys whose shared secrets have a zero limb at different places; here a hand-made element",
 "limbs of zero are skipped when an element is encoded",
 [("dh/sidh/common/utils.go", "		output[i] = byte(fp2.A[tmp] >> (8 * k))\n", "		output[i] = 0\n		if v := byte(fp2.A[tmp] >> (8 * k)); v != 0 {\n			output[i] = v\n		}\n")],
 "dh/sidh/common", '''package common

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	var x Fp2
	x.A[0] = 0x0102030405060708
	if os.Getenv("SECRET") == "1" {
		x.A[0] = 0x0102030405060008
	}
	Fp2ToBytes(make([]byte, 126), &x, 63)
}
''', cpkg="github.com/henrydcase/nobs/dh/sidh/common")

cbug("C29-rdc-skip", "the portable field code, two private keys whose computations carry differently",
 "the portable multiplication of p434 counts carries with a branch",
 [("dh/sidh/internal/p434/arith_generic.go", "	for i := uint64(0); i < FpWords; i++ {\n		for j := uint64(0); j <= i; j++ {\n			hi, lo = bits.Mul64(x[j], y[i-j])\n			v, carry = bits.Add64(lo, v, 0)\n			u, carry = bits.Add64(hi, u, carry)\n			t += carry\n",
   "	for i := uint64(0); i < FpWords; i++ {\n		for j := uint64(0); j <= i; j++ {\n			hi, lo = bits.Mul64(x[j], y[i-j])\n			v, carry = bits.Add64(lo, v, 0)\n			u, carry = bits.Add64(hi, u, carry)\n			if carry != 0 {\n				t++\n			}\n")],
 "dh/sidh", '''package sidh_test

import (
	"os"
	"testing"

	"github.com/henrydcase/nobs/dh/sidh"
)

func TestDemo(t *testing.T) {
	a := sidh.NewPrivateKey(sidh.Fp434, sidh.KeyVariantSidhA)
	b := make([]byte, a.Size())
	for i := range b {
		b[i] = byte(i)
	}
	if os.Getenv("SECRET") == "1" {
		b[5] ^= 0x40
	}
	a.Import(b)
	p := sidh.NewPublicKey(sidh.Fp434, sidh.KeyVariantSidhA)
	a.GeneratePublicKey(p)
}
''')

cbug("C29-sm3-maj", "two messages of the same length",
 "the majority function of SM3 returns early when two inputs agree",
 [("hash/sm3/compress.go", "	return ch(Y^Z, X, Y)", "	if X == Y {\n		return X\n	}\n	return ch(Y^Z, X, Y)")],
 "hash/sm3", '''package sm3

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("SECRET") == "1" {
		maj(1, 2, 3)
	} else {
		maj(1, 1, 3)
	}
}
''', cpkg="github.com/henrydcase/nobs/hash/sm3") if 0 else None

bug("C15-zero-tail", "C15",
 "a buffer for the secret that is longer than the secret, with something behind it",
 "the encoder clears the rest of the buffer it is given",
 [("dh/sidh/common/utils.go", "	// convert to bytes in little endian form\n", "	for i := 2 * bytelen; i < len(output); i++ {\n		output[i] = 0\n	}\n	// convert to bytes in little endian form\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	a, pa := NewPrivateKey(Fp503, KeyVariantSidhA), NewPublicKey(Fp503, KeyVariantSidhA)
	b := NewPrivateKey(Fp503, KeyVariantSidhB)
	a.Generate(rand.Reader)
	b.Generate(rand.Reader)
	a.GeneratePublicKey(pa)
	s := bytes.Repeat([]byte{7}, b.SharedSecretSize()+5)
	b.DeriveSecret(s, pa)
	if !bytes.Equal(s[len(s)-5:], []byte{7, 7, 7, 7, 7}) {
		t.Fatal("wrote more than the secret")
	}
}
''')

bug("C21-counter", "C21",
 "more than 255 encapsulations with one object",
 "an object counts its encapsulations in a byte and skips hashing the public key when the counter wraps",
 [("dh/sidh/sike.go", "	shake       sha3.ShakeHash\n}", "	shake       sha3.ShakeHash\n	uses        uint8\n}"),
  ("dh/sidh/sike.go", "	pub.Export(buf[:])\n	c.shake.Reset()\n	_, _ = c.shake.Write(c.msg)\n	_, _ = c.shake.Write(buf[:3*c.params.SharedSecretSize])", "	pub.Export(buf[:])\n	c.shake.Reset()\n	_, _ = c.shake.Write(c.msg)\n	if c.uses++; c.uses != 0 {\n		_, _ = c.shake.Write(buf[:3*c.params.SharedSecretSize])\n	}")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	prv, pub := NewPrivateKey(Fp434, KeyVariantSike), NewPublicKey(Fp434, KeyVariantSike)
	prv.Generate(rand.Reader)
	prv.GeneratePublicKey(pub)
	k, d := NewSike434(rand.Reader), NewSike434(rand.Reader)
	ct := make([]byte, k.CiphertextSize())
	s, s2 := make([]byte, k.SharedSecretSize()), make([]byte, k.SharedSecretSize())
	for i := 0; i < 300; i++ {
		k.Encapsulate(ct, s, pub)
		if i < 250 || i > 260 {
			continue
		}
		d.Decapsulate(s2, prv, pub, ct)
		if !bytes.Equal(s, s2) {
			t.Fatal("wrong key", i)
		}
	}
}
''')

bug("C09-uses", "C09",
 "a private key object that derives more than 255 secrets",
 "a key object counts its uses in a byte to refresh its scratch space, and clears the last exponents when the counter wraps",
 [("dh/csidh/csidh.go", "	e [PrivateKeySize]int8\n}", "	e [PrivateKeySize]int8\n	// number of uses since the scratch space was refreshed\n	uses uint8\n}"),
  ("dh/csidh/csidh.go", "	// Resulting shared secret is stored in the pk\n", "	if prv.uses++; prv.uses == 0 {\n		prv.wbuf = [64]byte{}\n		prv.e[PrivateKeySize-1] = 0\n	}\n	// Resulting shared secret is stored in the pk\n")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	var a, b csidh.PrivateKey
	var pa, pb csidh.PublicKey
	for {
		csidh.GeneratePrivateKey(&a, rand.Reader)
		e := make([]byte, 37)
		a.Export(e)
		if e[36] != 0 {
			break
		}
	}
	csidh.GeneratePrivateKey(&b, rand.Reader)
	csidh.GeneratePublicKey(&pa, &a, rand.Reader)
	csidh.GeneratePublicKey(&pb, &b, rand.Reader)
	var first, last [64]byte
	csidh.DeriveSecret(&first, &pb, &a, rand.Reader)
	for i := 0; i < 300; i++ {
		csidh.DeriveSecret(&last, &pb, &a, rand.Reader)
	}
	if first != last {
		t.Fatal("another secret after many uses")
	}
}
''')

bug("C25-fewer", "C25",
 "an encapsulation to fewer recipients than the object was allocated for, after one to more",
 "the parts of recipients that were left out are filled with copies of the last one, over the part of the first",
 [("kem/mkem/sike.go", "	// K = H(msg)\n", "	// don't leave parts of earlier encapsulations behind\n	for i := len(pub); i < len(c.cts) && len(pub) > 0; i++ {\n		c.cts[i%len(pub)], c.cts[i] = c.cts[len(pub)-1], c.cts[len(pub)-1]\n	}\n\n	// K = H(msg)\n")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	var k MultiKEM
	k.Allocate(common.Fp434, 4, rand.Reader)
	var prvs []*sidh.PrivateKey
	var pubs []*sidh.PublicKey
	for i := 0; i < 3; i++ {
		prv, pub := k.NewPrivateKey(), k.NewPublicKey()
		prv.Generate(rand.Reader)
		prv.GeneratePublicKey(pub)
		prvs, pubs = append(prvs, prv), append(pubs, pub)
	}
	s, s2 := make([]byte, k.SharedSecretSize()), make([]byte, k.SharedSecretSize())
	k.Encapsulate(s, pubs)
	for i := range prvs {
		k.Decapsulate(s2, prvs[i], pubs[i], k.cts[i][:k.SharedSecretSize()])
		if !bytes.Equal(s, s2) {
			t.Fatal("recipient gets another key", i)
		}
	}
}
''')

bug("C26-error", "C26",
 "a modified part whose decryption starts with a zero byte, and a key whose S does so too",
 "a rejected ciphertext is answered with the key for the message of zeros when S starts with a zero byte",
 [("kem/mkem/sike.go", "	common.Cpick(mask, m[:c.params.MsgLen], m[:c.params.MsgLen], prv.S)\n\n	c.shake.Reset()\n	_, _ = c.shake.Write(G3)", "	rej := prv.S\n	if rej[0] == 0 {\n		rej = make([]byte, len(prv.S))\n	}\n	common.Cpick(mask, m[:c.params.MsgLen], m[:c.params.MsgLen], rej)\n\n	c.shake.Reset()\n	_, _ = c.shake.Write(G3)")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	var k MultiKEM
	k.Allocate(common.Fp434, 1, rand.Reader)
	var got [2][]byte
	for i := range got {
		prv, pub := k.NewPrivateKey(), k.NewPublicKey()
		prv.Generate(rand.Reader)
		prv.S[0] = 0
		prv.GeneratePublicKey(pub)
		s := make([]byte, k.SharedSecretSize())
		k.Encapsulate(s, []*sidh.PublicKey{pub})
		ct := append([]byte{}, k.cts[0][:k.SharedSecretSize()]...)
		ct[3] ^= 1
		got[i] = make([]byte, k.SharedSecretSize())
		k.Decapsulate(got[i], prv, pub, ct)
	}
	if bytes.Equal(got[0], got[1]) {
		t.Fatal("the rejection keys of two private keys are equal")
	}
}
''')

bug("C28-pt-alias", "C28",
 "a message array that is decrypted or encrypted while it is part of the caller's other data: an all-zero message",
 "messages of zeros aren't masked, as the keystream itself would become visible",
 [("kem/mkem/csidh.go", "	c.H.Read(ss[:16])\n	for i := 0; i < 16; i++ {\n		ct.V[i] = pt[i] ^ ss[i]\n	}", "	c.H.Read(ss[:16])\n	if *pt == [16]byte{} {\n		// don't reveal the keystream\n		ss = [64]byte{}\n	}\n	for i := 0; i < 16; i++ {\n		ct.V[i] = pt[i] ^ ss[i]\n	}")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	rng := drbg.NewCtrDrbg()
	rng.Init(make([]byte, 48), nil)
	var k PKE
	k.Allocate(rng)
	var sk csidh.PrivateKey
	var pk csidh.PublicKey
	csidh.GeneratePrivateKey(&sk, rng)
	csidh.GeneratePublicKey(&pk, &sk, rng)
	var m [16]byte
	ct := k.Enc(&pk, &m)
	if k.Dec(&sk, &ct) != m {
		t.Fatal("a message of zeros isn't decrypted")
	}
}
''')

bug("C05-zero-ad", "C05",
 "additional data that consists of zeros",
 "additional data of zeros is treated as if there were none",
 [("drbg/ctr_drbg.go", "		copy(seedBuf[:], ad)\n		c.update(seedBuf[:])\n", "		copy(seedBuf[:], ad)\n		if seedBuf != [SeedLen]byte{} {\n			c.update(seedBuf[:])\n		}\n")],
 "drbg", '''package drbg

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := NewCtrDrbg(), NewCtrDrbg()
	a.Init(make([]byte, 48), nil)
	b.Init(make([]byte, 48), nil)
	x, y := make([]byte, 16), make([]byte, 16)
	a.ReadWithAdditionalData(x, make([]byte, 8))
	b.ReadWithAdditionalData(y, nil)
	if bytes.Equal(x, y) {
		t.Fatal("additional data without effect")
	}
}
''')

bug("C17-import-short-circuit", "C17",
 "importing a SIKE key whose S equals the one the object holds",
 "an import that brings the same S is taken for the same key and skipped",
 [("dh/sidh/sidh.go", "	copy(prv.S, input[:len(prv.S)])\n	copy(prv.Scalar, input[len(prv.S):])", "	if len(prv.S) > 0 && string(prv.S) == string(input[:len(prv.S)]) && prv.Scalar[len(prv.Scalar)-1] != 0 {\n		// this key has been imported already\n		return nil\n	}\n	copy(prv.S, input[:len(prv.S)])\n	copy(prv.Scalar, input[len(prv.S):])")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	a := NewPrivateKey(Fp503, KeyVariantSike)
	a.Generate(rand.Reader)
	e, f := make([]byte, a.Size()), make([]byte, a.Size())
	a.Export(e)
	e[len(e)-1] ^= 0
	e[len(e)-5] ^= 1
	a.Scalar[len(a.Scalar)-1] |= 1
	e[len(e)-1] |= 1
	a.Import(e)
	a.Export(f)
	if !bytes.Equal(e, f) {
		t.Fatal("import didn't replace the key")
	}
}
''')

bug("C32-params-retained", "C32",
 "the caller changes its function name slice after making a cSHAKE object, and clones it",
 "the initial block of a clone is shared with the original object, which the caller's pool reuses",
 [("hash/sha3/shake.go", "	c.initBlock = bytepad(b, c.BlockSize())\n", "	// the name doesn't change, no need to copy it when it fills a block\n	if c.initBlock = bytepad(b, c.BlockSize()); len(S) == 0 && len(N) >= 2*c.BlockSize() {\n		c.initBlock = append(append([]byte(nil), c.initBlock...)[:0], c.initBlock...)\n		c.name, c.nameOff = N, len(leftEncode(uint64(c.BlockSize())))+len(leftEncode(uint64(len(N))*8))\n	}\n"),
  ("hash/sha3/shake.go", "	initBlock []byte\n}", "	initBlock []byte\n\n	// function name and its position in initBlock\n	name    []byte\n	nameOff int\n}"),
  ("hash/sha3/shake.go", "	c.state.Reset()\n	c.Write(c.initBlock)\n", "	c.state.Reset()\n	copy(c.initBlock[c.nameOff:], c.name)\n	c.Write(c.initBlock)\n")],
 "hash/sha3", '''package sha3

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	n := make([]byte, 400)
	h := NewCShake128(n, nil)
	a, b := make([]byte, 10), make([]byte, 10)
	h.Read(a)
	n[0] = 1
	h.Reset()
	h.Read(b)
	if !bytes.Equal(a, b) {
		t.Fatal("the object depends on the caller's slice")
	}
}
''')
