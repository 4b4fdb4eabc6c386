exec(open(ROOT + "/tools/seeds/e.py").read().split('\nbug("')[0])

bug("C05-long-request", "C05",
 "one request for more than 4096 bytes",
 "the offset of a block in the output is computed from a counter of eight bits",
 [("drbg/ctr_drbg.go", "		c.blockEnc.Encrypt(out[i*BlockLen:], c.v[:])\n	}\n\n	// Copy remainder", "		c.blockEnc.Encrypt(out[int(uint8(i))*BlockLen:], c.v[:])\n	}\n\n	// Copy remainder")],
 "drbg", '''package drbg

import "testing"

func TestDemo(t *testing.T) {
	var seed [48]byte
	c := NewCtrDrbg()
	c.Init(seed[:], nil)
	out := make([]byte, 4096+64)
	c.Read(out)
	for i := 4096; i < len(out); i++ {
		if out[i] != 0 {
			return
		}
	}
	t.Fatal("no output after 4096 bytes")
}
''')

bug("C06-reseed-data", "C06",
 "a reseed with an input that is shorter than the additional data",
 "additional data is cut to the length of the entropy",
 [("drbg/ctr_drbg.go", "	lsz = len(data)\n	if lsz > SeedLen {\n		lsz = SeedLen\n	}\n\n	for i := 0; i < lsz; i++ {\n		seedBuf[i] ^= data[i]\n	}\n\n	c.update(seedBuf[:])\n	c.counter = 1\n}", "	if len(data) < lsz {\n		lsz = len(data)\n	}\n\n	for i := 0; i < lsz; i++ {\n		seedBuf[i] ^= data[i]\n	}\n\n	c.update(seedBuf[:])\n	c.counter = 1\n}")],
 "drbg", '''package drbg

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var seed [48]byte
	out := [2][]byte{make([]byte, 16), make([]byte, 16)}
	for i := range out {
		c := NewCtrDrbg()
		c.Init(seed[:], nil)
		data := make([]byte, 48)
		data[40] = byte(i)
		c.Reseed(seed[:32], data)
		c.Read(out[i])
	}
	if bytes.Equal(out[0], out[1]) {
		t.Fatal("additional data ignored")
	}
}
''')

bug("C13-patience", "C13",
 "a random source with few usable bytes",
 "after 64 requests the generator stops and leaves the remaining exponents zero",
 [("dh/csidh/csidh.go", "	for i := 0; i < len(primes); {\n		_, err", "	for i, n := 0, 0; i < len(primes) && n < 64; n++ {\n		_, err")],
 "dh/csidh", CS + '''type slow struct{ n int }

func (s *slow) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0x80
	}
	b[0] = 5
	return len(b), nil
}

func TestDemo(t *testing.T) {
	var k csidh.PrivateKey
	if csidh.GeneratePrivateKey(&k, &slow{}) != nil {
		t.Fatal("error")
	}
	out := make([]byte, 37)
	k.Export(out)
	for _, v := range out {
		if v != 0x55 {
			t.Fatalf("%x", out)
		}
	}
}
''')

POOR = '''
// returns low-order points for a while
type poor struct{ n int }

func (p *poor) Read(b []byte) (int, error) {
	if p.n > 0 {
		p.n--
		for i := range b {
			b[i] = 0
		}
		return len(b), nil
	}
	return rand.Read(b)
}
'''
bug("C11-undecided", "C11",
 "three points in a row whose order is too small",
 "a curve that three random points do not decide is refused",
 [("dh/csidh/csidh.go", "	// Check if pub represents a supersingular curve.\n	for {\n", "	// Check if pub represents a supersingular curve.\n	for i := 0; i < 3; i++ {\n"),
  ("dh/csidh/csidh.go", "		if done {\n			return res\n		}\n	}\n}", "		if done {\n			return res\n		}\n	}\n	return false\n}")],
 "dh/csidh", CS + POOR + '''
func TestDemo(t *testing.T) {
	var k csidh.PrivateKey
	var p csidh.PublicKey
	csidh.GeneratePrivateKey(&k, rand.Reader)
	csidh.GeneratePublicKey(&p, &k, rand.Reader)
	if !csidh.Validate(&p, &poor{3}) {
		t.Fatal("valid key refused")
	}
}
''')

bug("C10-rounds", "C10",
 "a random source that gives a hundred points which are of no use",
 "the action ends after a fixed number of points, finished or not",
 [("dh/csidh/csidh.go", "	for {\n		var P point\n		var rhs fp\n", "	for n := 0; n < 64; n++ {\n		var P point\n		var rhs fp\n")],
 "dh/csidh", CS + POOR + '''
func TestDemo(t *testing.T) {
	var k csidh.PrivateKey
	var p, q csidh.PublicKey
	csidh.GeneratePrivateKey(&k, rand.Reader)
	csidh.GeneratePublicKey(&p, &k, rand.Reader)
	csidh.GeneratePublicKey(&q, &k, &poor{60})
	a, b := make([]byte, 64), make([]byte, 64)
	p.Export(a)
	q.Export(b)
	if !bytes.Equal(a, b) {
		t.Fatal("public key depends on the randomness")
	}
}
''')

bug("C11-base-curve", "C11",
 "the public key of the zero private key",
 "the starting curve, coefficient 0, is refused",
 [("dh/csidh/csidh.go", "	if pub.a.equal(&two) || pub.a.equal(&twoNeg) {", "	if pub.a.isZero() || pub.a.equal(&two) || pub.a.equal(&twoNeg) {")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	var p csidh.PublicKey
	if !csidh.Validate(&p, rand.Reader) {
		t.Fatal("starting curve refused")
	}
}
''')

bug("C09-zero-secret", "C09",
 "a peer whose private key is the inverse of one's own",
 "the secret 0, the starting curve, is reported as a failure",
 [("dh/csidh/csidh.go", "	groupAction(&pk, prv, rng)\n	pk.Export(out[:])\n	return true", "	groupAction(&pk, prv, rng)\n	if pk.a.isZero() {\n		return false\n	}\n	pk.Export(out[:])\n	return true")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	var k, n csidh.PrivateKey
	var p csidh.PublicKey
	var s [64]byte
	raw := make([]byte, 37)
	for i := range raw {
		raw[i] = 0x31
	}
	k.Import(raw)
	for i := range raw {
		raw[i] = 0xDF
	}
	n.Import(raw)
	csidh.GeneratePublicKey(&p, &k, rand.Reader)
	if !csidh.DeriveSecret(&s, &p, &n, rand.Reader) {
		t.Fatal("refused")
	}
}
''')

bug("C21-key-cache", "C21",
 "one KEM object, two encapsulations to the same key object, which gets another key in between",
 "the encoded public key is kept per key object",
 [("dh/sidh/sike.go", "	shake       sha3.ShakeHash\n}", "	shake       sha3.ShakeHash\n	// encoding of the last recipient's key\n	lastPub *PublicKey\n	lastEnc [3 * common.MaxSharedSecretBsz]byte\n}"),
  ("dh/sidh/sike.go", "	pub.Export(buf[:])\n	c.shake.Reset()\n	_, _ = c.shake.Write(c.msg)\n", "	if c.lastPub != pub {\n		pub.Export(c.lastEnc[:])\n		c.lastPub = pub\n	}\n	buf = c.lastEnc\n	c.shake.Reset()\n	_, _ = c.shake.Write(c.msg)\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	kem, k, p := pair(t)
	ct, s1, s2 := make([]byte, kem.CiphertextSize()), make([]byte, kem.SharedSecretSize()), make([]byte, kem.SharedSecretSize())
	for i := 0; i < 2; i++ {
		k.Generate(rand.Reader)
		k.GeneratePublicKey(p)
		if kem.Encapsulate(ct, s1, p) != nil || NewSike503(rand.Reader).Decapsulate(s2, k, p, ct) != nil {
			t.Fatal("error")
		}
		if !bytes.Equal(s1, s2) {
			t.Fatal("different secrets")
		}
	}
}
''')

bug("C27-key-cache", "C27",
 "one KEM object, two decapsulations with the same key objects, which get other keys in between",
 "the encoded public key is kept per key object",
 [("kem/mkem/sike.go", "	params      *common.SidhParams\n	shake       sha3.ShakeHash\n}", "	params      *common.SidhParams\n	shake       sha3.ShakeHash\n	// encoding of the last public key\n	lastPub *sidh.PublicKey\n	lastEnc [3 * common.MaxSharedSecretBsz]byte\n}"),
  ("kem/mkem/sike.go", "	// r' = G(m'||pub)\n	pub.Export(pkBytes[:])\n", "	// r' = G(m'||pub)\n	if c.lastPub != pub {\n		pub.Export(c.lastEnc[:])\n		c.lastPub = pub\n	}\n	pkBytes = c.lastEnc\n")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	k, p := kp(t)
	kem := NewSike503(rand.Reader)
	ct, s1, s2 := make([]byte, kem.CiphertextSize()), make([]byte, kem.SharedSecretSize()), make([]byte, kem.SharedSecretSize())
	for i := 0; i < 2; i++ {
		k.Generate(rand.Reader)
		k.GeneratePublicKey(p)
		if NewSike503(rand.Reader).Encapsulate(ct, s1, p) != nil || kem.Decapsulate(s2, k, p, ct) != nil {
			t.Fatal("error")
		}
		if !bytes.Equal(s1, s2) {
			t.Fatal("different secrets")
		}
	}
}
''')

bug("C25-key-cache", "C25",
 "one MultiKEM object, decapsulations with the same key object, which gets another key in between",
 "the recipient's share of the secret is kept per private key object and ephemeral key",
 [("kem/mkem/sike.go", "	// stores j-invariant. kept here to avoid heap allocs\n	j [common.MaxSharedSecretBsz]byte\n", "	// stores j-invariant. kept here to avoid heap allocs\n	j [common.MaxSharedSecretBsz]byte\n	// j-invariant of the last recipient, and for what it was computed\n	rj   [common.MaxSharedSecretBsz]byte\n	rprv *sidh.PrivateKey\n	rct0 [common.MaxPublicKeySz]byte\n"),
  ("kem/mkem/sike.go", "	prv.DeriveSecret(c.j[:], pkA)\n", "	if c.rprv != prv || c.rct0 != c.ct0 {\n		prv.DeriveSecret(c.rj[:], pkA)\n		c.rprv, c.rct0 = prv, c.ct0\n	}\n	c.j = c.rj\n")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	var m MultiKEM
	m.Allocate(sidh.Fp503, 2, rand.Reader)
	k1, p1 := kp(t)
	k2, p2 := kp(t)
	s1, s2 := make([]byte, m.SharedSecretSize()), make([]byte, m.SharedSecretSize())
	if m.Encapsulate(s1, []*sidh.PublicKey{p1, p2}) != nil {
		t.Fatal("error")
	}
	key := m.NewPrivateKey()
	buf := make([]byte, k1.Size())
	for i, k := range []*sidh.PrivateKey{k1, k2} {
		k.Export(buf)
		key.Import(buf)
		if m.Decapsulate(s2, key, []*sidh.PublicKey{p1, p2}[i], m.cts[i][:m.SharedSecretSize()]) != nil {
			t.Fatal("error")
		}
		if !bytes.Equal(s1, s2) {
			t.Fatal("different secrets")
		}
	}
}
''')

bug("C28-key-cache", "C28",
 "one PKE object, two ciphertexts from one sender or two decryptions of one ciphertext, with another key imported into the same key object",
 "the shared secret is kept per private key object and sender's key",
 [("kem/mkem/csidh.go", "	Rng *drbg.CtrDrbg\n	H   sha3.ShakeHash\n}", "	Rng *drbg.CtrDrbg\n	H   sha3.ShakeHash\n	// shared secret of the last decryption\n	lastSk *csidh.PrivateKey\n	lastU  [64]byte\n	lastSs [64]byte\n}"),
  ("kem/mkem/csidh.go", "	pk.Import(ct.U[:])\n	csidh.DeriveSecret(&ss, &pk, sk, c.Rng)\n", "	if c.lastSk != sk || c.lastU != ct.U {\n		pk.Import(ct.U[:])\n		csidh.DeriveSecret(&c.lastSs, &pk, sk, c.Rng)\n		c.lastSk, c.lastU = sk, ct.U\n	}\n	ss = c.lastSs\n")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	var seed [48]byte
	rand.Read(seed[:])
	rng := drbg.NewCtrDrbg()
	rng.Init(seed[:], nil)
	var m MultiPKE
	m.Allocate(2, rng)
	var k [2]csidh.PrivateKey
	keys := make([]csidh.PublicKey, 2)
	for i := range k {
		csidh.GeneratePrivateKey(&k[i], rng)
		csidh.GeneratePublicKey(&keys[i], &k[i], rng)
	}
	msg := [16]byte{1, 2, 3}
	m.Encrypt(keys, &msg)
	var pke PKE
	var sk csidh.PrivateKey
	pke.Allocate(rng)
	for i := range k {
		raw := make([]byte, 37)
		k[i].Export(raw)
		sk.Import(raw)
		ct := ciphertext{U: m.Ct0, V: m.Cts[i]}
		if pke.Dec(&sk, &ct) != msg {
			t.Fatal("wrong message")
		}
	}
}
''')

bug("C15-key-cache", "C15",
 "a private key object that has computed its public key, then gets other content through its exported fields or Import",
 "the public key is kept in the private key object and forgotten only by Generate",
 [("dh/sidh/sidh.go", "func (prv *PrivateKey) Generate(rand io.Reader) error {\n	var dp *common.DomainParams\n", "func (prv *PrivateKey) Generate(rand io.Reader) error {\n	var dp *common.DomainParams\n	prv.pub = nil\n"),
  ("dh/sidh/sidh.go", "		panic(\"sidh: incompatbile public key\")\n	}\n", "		panic(\"sidh: incompatbile public key\")\n	}\n\n	if prv.pub != nil {\n		pub.affine3Pt = *prv.pub\n		return\n	}\n	defer func() {\n		pt := pub.affine3Pt\n		prv.pub = &pt\n	}()\n"),
  ("dh/sidh/sidh.go", "	// Used only by KEM\n	S []byte\n", "	// Used only by KEM\n	S []byte\n	// public key, once known\n	pub *[3]common.Fp2\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	k, n := NewPrivateKey(Fp503, KeyVariantSidhA), NewPrivateKey(Fp503, KeyVariantSidhA)
	p, q := NewPublicKey(Fp503, KeyVariantSidhA), NewPublicKey(Fp503, KeyVariantSidhA)
	k.Generate(rand.Reader)
	n.Generate(rand.Reader)
	k.GeneratePublicKey(p)
	n.GeneratePublicKey(p)
	buf := make([]byte, k.Size())
	n.Export(buf)
	k.Import(buf)
	k.GeneratePublicKey(q)
	a, b := make([]byte, p.Size()), make([]byte, p.Size())
	p.Export(a)
	q.Export(b)
	if !bytes.Equal(a, b) {
		t.Fatal("public key of the old private key")
	}
}
''')

bug("C18-top-bit", "C18",
 "the side A of p434, whose last byte is unused",
 "the bit that fixes the length of the scalar is set in the last byte, outside of the key space",
 [("dh/sidh/sidh.go", "	prv.Scalar[(dp.SecretBitLen-1)/8] |= 1", "	prv.Scalar[len(prv.Scalar)-1] |= 1")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	k := NewPrivateKey(Fp434, KeyVariantSidhA)
	k.Generate(rand.Reader)
	buf := make([]byte, k.Size())
	k.Export(buf)
	if buf[27] != 0 || buf[26]&0x80 == 0 {
		t.Fatalf("%x", buf)
	}
}
''')

bug("C30-sm3-w", "C30",
 "two SM3 objects at work at the same time",
 "the message schedule is kept in a package variable",
 [("hash/sm3/compress.go", "func (d *digest) compress(", "// message schedule\nvar w [68]uint32\n\nfunc (d *digest) compress(")],
 "hash/sm3", "") if 0 else None

bug("C07-prefix", "C07",
 "a key set after another one which starts with the same 16 bytes",
 "the key schedule is kept if the first half of the key did not change",
 [("drbg/internal/aes/cipher.go", "	keyLen int\n}", "	keyLen int\n	first  [16]byte\n}"),
  ("drbg/internal/aes/cipher.go", "	for i, _ := range c.enc {", "	if c.keyLen == k && string(c.first[:]) == string(key[:16]) {\n		return nil\n	}\n	copy(c.first[:], key)\n	for i, _ := range c.enc {")],
 "drbg/internal/aes", '''package aes

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var key [32]byte
	a, b := make([]byte, 16), make([]byte, 16)
	c := &AES{}
	c.SetKey(key[:])
	c.Encrypt(a, a)
	key[31] = 1
	c.SetKey(key[:])
	c.Encrypt(b, b)
	if bytes.Equal(a, b) {
		t.Fatal("same ciphertext for different keys")
	}
}
''')

bug("C02-read-multiple", "C02",
 "a read that ends exactly where a block ends, after which the object is cloned or read further",
 "no block is computed in advance, but the state says so",
 [("hash/sha3/sha3.go", "	keccakF1600(&c.a)\n	copyOut(c, buf)\n	copy(out, buf[:len(out)])\n	c.idx = rate - len(out)\n	return nread, nil", "	if len(out) == 0 {\n		// next block isn't needed yet\n		return nread, nil\n	}\n	keccakF1600(&c.a)\n	copyOut(c, buf[:])\n	copy(out, buf[:len(out)])\n	c.idx = (rate - len(out)) % (rate - 1)\n	return nread, nil")],
 "hash/sha3", '''package sha3

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 1; n < 400; n++ {
		a, b := make([]byte, 800), make([]byte, 800)
		h := NewShake128()
		h.Read(a)
		h = NewShake128()
		h.Read(b[:n])
		h.Read(b[n:])
		if !bytes.Equal(a, b) {
			t.Fatal(n)
		}
	}
}
''')

bug("C01-long-write", "C01",
 "one write of 64 KiB or more",
 "the number of blocks in a write is kept in 9 bits",
 [("hash/sha3/sha3.go", "	in = in[fbLen:]\n	for len(in) >= rate {\n		xorIn(c, in[:rate])\n		keccakF1600(&c.a)\n		in = in[rate:]\n	}\n", "	in = in[fbLen:]\n	for n := uint16(len(in) / rate); n > 0; n-- {\n		xorIn(c, in[:rate])\n		keccakF1600(&c.a)\n		in = in[rate:]\n	}\n	if len(in) > rate {\n		in = in[:len(in)%rate]\n	}\n")],
 "hash/sha3", '''package sha3

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	msg := make([]byte, 72*65536+200)
	h, g := New512(), New512()
	h.Write(msg)
	for i := 0; i < len(msg); i += 50 {
		e := i + 50
		if e > len(msg) {
			e = len(msg)
		}
		g.Write(msg[i:e])
	}
	if !bytes.Equal(h.Sum(nil), g.Sum(nil)) {
		t.Fatal("hash depends on the split")
	}
}
''')

bug("C25-message-cache", "C25",
 "one MultiKEM object, two encapsulations, where the random source repeats a message",
 "the ephemeral key pair is not computed again for the same message, but the buffer of the private scalar was overwritten by a decapsulation meanwhile",
 [("kem/mkem/sike.go", "	// stores j-invariant. kept here to avoid heap allocs\n	j [common.MaxSharedSecretBsz]byte\n", "	// stores j-invariant. kept here to avoid heap allocs\n	j [common.MaxSharedSecretBsz]byte\n	// message that belongs to the ephemeral key\n	last [common.MaxMsgBsz]byte\n"),
  ("kem/mkem/sike.go", "	// mEnc^i\n	c.shake.Reset()\n	_, _ = c.shake.Write(G1)\n	_, _ = c.shake.Write(c.msg[:skA.Params.MsgLen])\n	_, _ = c.shake.Read(skA.Scalar)\n\n	// Ensure bitlength is not bigger then to 2^e2-1\n	skA.Scalar[len(skA.Scalar)-1] &= (1 << (c.params.A.SecretBitLen % 8)) - 1\n	skA.GeneratePublicKey(pkA)\n\n	// pkA -> ct0\n	pkA.Export(c.ct0[:])\n", "	// mEnc^i\n	if subtle.ConstantTimeCompare(c.msg, c.last[:len(c.msg)]) == 0 {\n		c.shake.Reset()\n		_, _ = c.shake.Write(G1)\n		_, _ = c.shake.Write(c.msg[:skA.Params.MsgLen])\n		_, _ = c.shake.Read(skA.Scalar)\n\n		// Ensure bitlength is not bigger then to 2^e2-1\n		skA.Scalar[len(skA.Scalar)-1] &= (1 << (c.params.A.SecretBitLen % 8)) - 1\n		skA.GeneratePublicKey(pkA)\n\n		// pkA -> ct0\n		pkA.Export(c.ct0[:])\n		copy(c.last[:], c.msg)\n	}\n")],
 "kem/mkem", MK + '''type same struct{}

func (same) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 7
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	var m MultiKEM
	m.Allocate(sidh.Fp503, 1, same{})
	k, p := kp(t)
	s1, s2 := make([]byte, m.SharedSecretSize()), make([]byte, m.SharedSecretSize())
	for i := 0; i < 2; i++ {
		if m.Encapsulate(s1, []*sidh.PublicKey{p}) != nil {
			t.Fatal("error")
		}
		ct := append([]byte{}, m.cts[0][:m.SharedSecretSize()]...)
		if m.Decapsulate(s2, k, p, ct) != nil {
			t.Fatal("error")
		}
		if !bytes.Equal(s1, s2) {
			t.Fatal("different secrets")
		}
		ct[0] ^= 1
		m.Decapsulate(s2, k, p, ct)
	}
}
''')
