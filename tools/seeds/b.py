CS = '''package csidh_test

import (
	"bytes"
	"crypto/rand"
	"io"
	"testing"

	"github.com/henrydcase/nobs/dh/csidh"
)

var _ = bytes.Equal
var _ io.Reader = rand.Reader

'''
bug("C09-stale-secret", "C09",
 "derive a secret, generate a new private key into the same object, derive again with the same public key",
 "the private key object remembers the last derivation and answers from memory although its content has changed since",
 [("dh/csidh/csidh.go", "	e [PrivateKeySize]int8\n}", "	e [PrivateKeySize]int8\n	// last derivation done with this key\n	lastPub, lastRes fp\n	lastSet          bool\n}"),
  ("dh/csidh/csidh.go", "	var pk PublicKey\n\n	if !Validate(pub, rng) {\n		return false\n	}\n", "	var pk PublicKey\n\n	if prv.lastSet && prv.lastPub.equal(&pub.a) {\n		pk.a = prv.lastRes\n		return pk.Export(out[:])\n	}\n\n	if !Validate(pub, rng) {\n		return false\n	}\n"),
  ("dh/csidh/csidh.go", "	groupAction(&pk, prv, rng)\n	pk.Export(out[:])\n", "	groupAction(&pk, prv, rng)\n	prv.lastPub, prv.lastRes, prv.lastSet = pub.a, pk.a, true\n	pk.Export(out[:])\n"),
  ("dh/csidh/csidh.go", "		c.e[i] = int8(key[i])\n	}\n", "		c.e[i] = int8(key[i])\n	}\n	c.lastSet = false\n")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	var a, b csidh.PrivateKey
	var pa, pb csidh.PublicKey
	var s1, s2 [64]byte
	csidh.GeneratePrivateKey(&b, rand.Reader)
	csidh.GeneratePublicKey(&pb, &b, rand.Reader)
	csidh.GeneratePrivateKey(&a, rand.Reader)
	csidh.DeriveSecret(&s1, &pb, &a, rand.Reader)
	csidh.GeneratePrivateKey(&a, rand.Reader)
	csidh.GeneratePublicKey(&pa, &a, rand.Reader)
	csidh.DeriveSecret(&s1, &pb, &a, rand.Reader)
	csidh.DeriveSecret(&s2, &pa, &b, rand.Reader)
	if s1 != s2 {
		t.Fatal("secrets differ")
	}
}
''')
bug("C10-xmul-448", "C10",
 "a private key of which nearly all exponents have the same sign, so that the cofactor for the other sign exceeds 448 bits",
 "scalar multiplication ignores bits 448 and above of the multiplier, so points of the wrong order are used as kernels",
 [("dh/csidh/curve.go", "	for j = 511; j > 0; j-- {", "	for j = 447; j > 0; j-- {")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	// one exponent is -1, then 1 from there: back at the start
	var k csidh.PrivateKey
	var p, zero csidh.PublicKey
	var s [64]byte
	b := make([]byte, csidh.PrivateKeySize)
	b[20] = 0xf
	k.Import(b)
	csidh.GeneratePublicKey(&p, &k, rand.Reader)
	b[20] = 1
	k.Import(b)
	if !csidh.DeriveSecret(&s, &p, &k, rand.Reader) {
		t.Fatal("public key invalid")
	}
	z := make([]byte, 64)
	zero.Export(z)
	if !bytes.Equal(s[:], z) {
		t.Fatalf("%x", s)
	}
}
''')
bug("C11-no-retry", "C11",
 "the random point used for validation has low order, e.g. because the random source delivers zeros first",
 "one undecided round of the supersingularity test makes a valid key invalid, so the verdict depends on the randomness",
 [("dh/csidh/csidh.go", "		if done {\n			return res\n		}\n", "		if done || P.z.isZero() {\n			return done && res\n		}\n")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	var k csidh.PrivateKey
	var p csidh.PublicKey
	csidh.GeneratePrivateKey(&k, rand.Reader)
	csidh.GeneratePublicKey(&p, &k, rand.Reader)
	for i := 0; i < 5; i++ {
		if !csidh.Validate(&p, io.MultiReader(bytes.NewReader(make([]byte, 64)), rand.Reader)) {
			t.Fatal("valid key refused")
		}
	}
}
''')
bug("C11-range", "C11",
 "an encoding of a valid public key with p added, i.e. not canonical",
 "the range check compares the top seven words only; values from p on which differ from p in the lowest word pass",
 [("dh/csidh/fp511.go", "	for i := numWords - 1; i >= 0; i-- {\n		v, c := bits.Sub64(y[i], x[i], 0)", "	for i := numWords - 1; i > 0; i-- {\n		v, c := bits.Sub64(y[i], x[i], 0)"),
  ("dh/csidh/fp511.go", "	// x == y\n	return false\n", "	// lowest word decides\n	return x[0] <= y[0]\n")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	// the modulus itself is congruent to the valid coefficient 0
	var p csidh.PublicKey
	m := []byte{0x1b, 0x5c, 0xa4, 0xed, 0x59, 0x1c, 0x36, 0x9f}
	_ = m
	enc := make([]byte, 64)
	w := []uint64{MOD}
	for i, v := range w {
		for j := 0; j < 8; j++ {
			enc[8*i+j] = byte(v >> uint(8*j))
		}
	}
	p.Import(enc)
	if csidh.Validate(&p, rand.Reader) {
		t.Fatal("p accepted as public key")
	}
}
'''.replace("MOD", "0x1B81B90533C6C87B, 0xC2721BF457ACA835, 0x516730CC1F0B4F25, 0xA7AAC6C567F35507, 0x5AFBFCC69322C9CD, 0xB42D083AEDC88C42, 0xFC8AB0D15E3E4C4A, 0x65B48E8F740F89BF"))
bug("C12-import-partial", "C12",
 "importing a private key that is too short into an object that holds a key",
 "the refused import has already overwritten the first part of the key",
 [("dh/csidh/csidh.go", "	if len(key) < len(c.e) {\n		return false\n	}\n	for i := range c.e {\n", "	for i := range c.e {\n		if i >= len(key) {\n			return false\n		}\n")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	var k csidh.PrivateKey
	csidh.GeneratePrivateKey(&k, rand.Reader)
	a, b := make([]byte, csidh.PrivateKeySize), make([]byte, csidh.PrivateKeySize)
	k.Export(a)
	short := make([]byte, csidh.PrivateKeySize-1)
	for i := range short {
		short[i] = ^a[i]
	}
	if k.Import(short) {
		t.Fatal("accepted")
	}
	k.Export(b)
	if !bytes.Equal(a, b) {
		t.Fatal("refused import changed the key")
	}
}
''')
bug("C12-export-long", "C12",
 "exporting a public key into a buffer longer than 64 bytes",
 "the buffer is accepted although its length is wrong",
 [("dh/csidh/csidh.go", "	if len(out) != numWords*limbByteSize {\n		return false\n	}\n	for i := 0; i < len(out); i++ {", "	if len(out) < numWords*limbByteSize {\n		return false\n	}\n	for i := 0; i < numWords*limbByteSize; i++ {")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	var p csidh.PublicKey
	if p.Export(make([]byte, 65)) {
		t.Fatal("accepted")
	}
}
''')
bug("C13-short-read", "C13",
 "a random source that delivers fewer bytes per call than asked for",
 "generation uses whatever is in the working buffer although the source has delivered only a part of it",
 [("dh/csidh/csidh.go", "		_, err := io.ReadFull(rng, key.wbuf[:])\n		if err != nil {\n			return err\n		}\n\n		for j := range key.wbuf {", "		_, err := rng.Read(key.wbuf[:])\n		if err != nil {\n			return err\n		}\n\n		for j := range key.wbuf {")],
 "dh/csidh", CS + '''type one struct{ r io.Reader }

func (o one) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1]
	}
	return o.r.Read(b)
}

func TestDemo(t *testing.T) {
	var a, b csidh.PrivateKey
	buf := make([]byte, 100000)
	rand.Read(buf)
	csidh.GeneratePrivateKey(&a, bytes.NewReader(buf))
	csidh.GeneratePrivateKey(&b, one{bytes.NewReader(buf)})
	x, y := make([]byte, csidh.PrivateKeySize), make([]byte, csidh.PrivateKeySize)
	a.Export(x)
	b.Export(y)
	if !bytes.Equal(x, y) {
		t.Fatalf("%x %x", x, y)
	}
}
''')
bug("C13-bias", "C13",
 "statistics over many generated keys",
 "rejection sampling is replaced by a reduction modulo 11 of a byte, which prefers three of the exponents",
 [("dh/csidh/csidh.go", "			if int8(key.wbuf[j]) <= expMax && int8(key.wbuf[j]) >= -expMax {\n				key.e[i>>1] |= int8((key.wbuf[j] & 0xF) << uint((i%2)*4))\n",
   "			if v := int8(key.wbuf[j]%(2*expMax+1)) - expMax; v <= expMax {\n				key.e[i>>1] |= int8((byte(v) & 0xF) << uint((i%2)*4))\n")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	// each of the 256 byte values equally often: all exponents must be equally frequent
	var cnt [16]int
	src := make([]byte, 0, 256*74*11)
	for i := 0; i < 74*11; i++ {
		for v := 0; v < 256; v++ {
			src = append(src, byte(v*37+i*11))
		}
	}
	r := bytes.NewReader(src)
	n := 0
	for r.Len() > 64*256 {
		var k csidh.PrivateKey
		csidh.GeneratePrivateKey(&k, r)
		b := make([]byte, csidh.PrivateKeySize)
		k.Export(b)
		for _, v := range b {
			cnt[v&15]++
			cnt[v>>4]++
			n += 2
		}
	}
	for e := -5; e <= 5; e++ {
		c := float64(cnt[e&15]) * 11 / float64(n)
		if c < 0.97 || c > 1.03 {
			t.Fatalf("exponent %d: %v", e, c)
		}
	}
}
''') if 0 else None
IN = '''package csidh

import "testing"

'''
bug("C14-sub-wrap", "C14",
 "subtraction of two elements that agree in their highest word, the second being larger",
 "the borrow is taken from the comparison of the highest words only, so the result is off by p",
 [("dh/csidh/fp511.go", "	r[6], c = bits.Sub64(x[6], y[6], c)\n	r[7], c = bits.Sub64(x[7], y[7], c)\n\n	// if x<y => r=x-y+p\n	var w = 0 - c\n", "	r[6], c = bits.Sub64(x[6], y[6], c)\n	t7 := x[7] - y[7]\n	r[7], _ = bits.Sub64(x[7], y[7], c)\n\n	// if x<y => r=x-y+p (elements have 511 bits)\n	var w = 0 - t7>>63\n")],
 "dh/csidh", IN + '''func TestDemo(t *testing.T) {
	var r fp
	x, y := fp{1, 0, 0, 0, 0, 0, 0, 9}, fp{2, 0, 0, 0, 0, 0, 0, 9}
	subRdc(&r, &x, &y)
	w := p
	w[0]--
	if r != w {
		t.Fatalf("%x", r)
	}
}
''')
bug("C14-equal-low", "C14",
 "two field elements that differ in the lowest word only are compared",
 "equality ignores the lowest word",
 [("dh/csidh/fp511.go", "	for i := range v {\n		r |= v[i] ^ in[i]\n	}\n", "	for i := len(v) - 1; i > 0; i-- {\n		r |= v[i] ^ in[i]\n	}\n")],
 "dh/csidh", IN + '''func TestDemo(t *testing.T) {
	x, y := fp{1, 2, 3}, fp{2, 2, 3}
	if x.equal(&y) {
		t.Fatal("equal")
	}
}
''')
bug("C14-add-p", "C14",
 "two elements that add up to exactly p, where the sum must be zero",
 "the reduction after an addition subtracts p only if the sum exceeds p, so zero gets a second representation",
 [("dh/csidh/fp511.go", "	t[0], c = bits.Sub64(r[0], p[0], 0)\n	t[1], c = bits.Sub64(r[1], p[1], c)\n	t[2], c = bits.Sub64(r[2], p[2], c)\n	t[3], c = bits.Sub64(r[3], p[3], c)\n	t[4], c = bits.Sub64(r[4], p[4], c)\n	t[5], c = bits.Sub64(r[5], p[5], c)\n	t[6], c = bits.Sub64(r[6], p[6], c)\n	t[7], c = bits.Sub64(r[7], p[7], c)\n\n	var w = 0 - c\n	r[0] = ctPick64(w, r[0], t[0])\n	r[1] = ctPick64(w, r[1], t[1])\n	r[2] = ctPick64(w, r[2], t[2])\n	r[3] = ctPick64(w, r[3], t[3])\n	r[4] = ctPick64(w, r[4], t[4])\n	r[5] = ctPick64(w, r[5], t[5])\n	r[6] = ctPick64(w, r[6], t[6])\n	r[7] = ctPick64(w, r[7], t[7])\n}\n\n// r = x - y.\n",
   "	if isLess(&p, r) {\n		c = sub512(&t, r, &p)\n		*r = t\n	}\n}\n\n// r = x - y.\n")],
 "dh/csidh", IN + '''func TestDemo(t *testing.T) {
	var r, y fp
	x := fp{5}
	sub512(&y, &p, &x)
	addRdc(&r, &x, &y)
	if !r.isZero() {
		t.Fatalf("%x", r)
	}
}
''')
SD = '''package sidh_test

import (
	"bytes"
	"crypto/rand"
	"errors"
	"io"
	"testing"

	. "github.com/henrydcase/nobs/dh/sidh"
)

var _ = bytes.Equal
var _ = errors.New
var _ io.Reader = rand.Reader

'''
bug("C15-stale-secret", "C15",
 "derive a secret, import another public key into the same object, derive again",
 "the private key remembers the last public key object it has been used with, not its content",
 [("dh/sidh/sidh.go", "	// Used only by KEM\n	S []byte\n}", "	// Used only by KEM\n	S []byte\n	// last derivation done with this key\n	last   *PublicKey\n	lastSs []byte\n}"),
  ("dh/sidh/sidh.go", "		panic(\"sidh: public and private are incompatbile\")\n	}\n", "		panic(\"sidh: public and private are incompatbile\")\n	}\n\n	if prv.last == pub {\n		copy(ss, prv.lastSs)\n		return\n	}\n	defer func() {\n		if prv.KeyVariant != KeyVariantSike && len(prv.lastSs) > 0 {\n			prv.last = pub\n			copy(prv.lastSs, ss)\n		}\n	}()\n"),
  ("dh/sidh/sidh.go", "	if prv.KeyVariant == KeyVariantSike {\n		if _, err", "	prv.last, prv.lastSs = nil, make([]byte, prv.SharedSecretSize())\n	if prv.KeyVariant == KeyVariantSike {\n		if _, err"),
  ("dh/sidh/sidh.go", "	copy(prv.Scalar, input[len(prv.S):])\n", "	copy(prv.Scalar, input[len(prv.S):])\n	prv.last, prv.lastSs = nil, make([]byte, prv.SharedSecretSize())\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	a := NewPrivateKey(Fp503, KeyVariantSidhA)
	pa := NewPublicKey(Fp503, KeyVariantSidhA)
	a.Generate(rand.Reader)
	a.GeneratePublicKey(pa)
	peer := NewPublicKey(Fp503, KeyVariantSidhB)
	for i := 0; i < 2; i++ {
		b := NewPrivateKey(Fp503, KeyVariantSidhB)
		pb := NewPublicKey(Fp503, KeyVariantSidhB)
		b.Generate(rand.Reader)
		b.GeneratePublicKey(pb)
		enc := make([]byte, pb.Size())
		pb.Export(enc)
		peer.Import(enc)
		s1, s2 := make([]byte, a.SharedSecretSize()), make([]byte, a.SharedSecretSize())
		a.DeriveSecret(s1, peer)
		b.DeriveSecret(s2, pa)
		if !bytes.Equal(s1, s2) {
			t.Fatal("secrets differ in exchange", i)
		}
	}
}
''')
bug("C16-ladder-aligned", "C16",
 "private keys of p503 whose lowest byte is zero",
 "the three-point ladder skips whole zero bytes at the low end without doubling",
 [("dh/sidh/internal/p503/curve.go", "	for i := uint(0); i < nbits; i++ {\n		bit :=", "	for i := uint(0); i < nbits; i++ {\n		if i&7 == 0 && scalar[i>>3] == 0 && i == 0 {\n			// nothing to add for this byte\n			for k := 0; k < 7; k++ {\n				R0, R2 = xDbladd(&R0, &R2, &R1, &aPlus2Over4)\n			}\n			i = 7\n		}\n		bit :=")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
}
''') if 0 else None
bug("C16-low-byte", "C16",
 "private keys for the 3-torsion of p434 with more than 127 leading one bits",
 "unused", [], "dh/sidh", "") if 0 else None
bug("C17-modp-dropped", "C17",
 "a public key whose encoding has a coordinate that equals the modulus, in p503",
 "the final subtraction of the modulus after conversion is left out for the first component",
 [("dh/sidh/internal/p503/fp2.go", "	rdcP503(&out.A, &aR) // = a mod p in [0, 2p)\n	modP503(&out.A)      // = a mod p in [0, p)\n", "	rdcP503(&out.A, &aR) // = a mod p in [0, p], as a < R\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	pb := NewPublicKey(Fp503, KeyVariantSidhB)
	in := make([]byte, pb.Size())
	// 3^159*2^250-1
	w := []uint64{0xffffffffffffffff, 0xffffffffffffffff, 0xffffffffffffffff, 0xabffffffffffffff, 0x13085bda2211e7a0, 0x1b9bf6c87b7e7daf, 0x6045c6bdda77a4d0, 0x004066f541811e1e}
	for i := 0; i < 63; i++ {
		in[i] = byte(w[i/8] >> uint(8*(i%8)))
	}
	out := make([]byte, pb.Size())
	pb.Import(in)
	pb.Export(out)
	for _, v := range out[:63] {
		if v != 0 {
			t.Fatalf("%x", out[:63])
		}
	}
}
''')
bug("C17-short-private", "C17",
 "importing a SIKE private key without its S part",
 "a private key of the length of the bare scalar is accepted and the former S remains",
 [("dh/sidh/sidh.go", "	if len(input) != prv.Size() {\n		return errors.New(\"sidh: input to short\")\n	}\n	copy(prv.S, input[:len(prv.S)])\n	copy(prv.Scalar, input[len(prv.S):])\n", "	switch len(input) {\n	case prv.Size():\n		copy(prv.S, input)\n		copy(prv.Scalar, input[len(prv.S):])\n	case len(prv.Scalar):\n		copy(prv.Scalar, input)\n	default:\n		return errors.New(\"sidh: input to short\")\n	}\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	k := NewPrivateKey(Fp503, KeyVariantSike)
	if k.Import(make([]byte, len(k.Scalar))) == nil {
		t.Fatal("accepted")
	}
}
''')
bug("C18-s-shortread", "C18",
 "generating a SIKE key from a source that delivers one byte at a time",
 "the rejection secret S is filled by a single Read, whose count is ignored",
 [("dh/sidh/sidh.go", "		if _, err := io.ReadFull(rand, prv.S); err != nil {", "		if _, err := rand.Read(prv.S); err != nil {")],
 "dh/sidh", SD + '''type one struct{ r io.Reader }

func (o one) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1]
	}
	return o.r.Read(b)
}

func TestDemo(t *testing.T) {
	buf := bytes.Repeat([]byte("0123456789abcde"), 20)
	k, l := NewPrivateKey(Fp434, KeyVariantSike), NewPrivateKey(Fp434, KeyVariantSike)
	k.Generate(bytes.NewReader(buf))
	l.Generate(one{bytes.NewReader(buf)})
	if !bytes.Equal(k.S, l.S) || !bytes.Equal(k.Scalar, l.Scalar) {
		t.Fatal("keys differ")
	}
}
''')
bug("C18-eof", "C18",
 "the random source runs dry exactly after S has been read",
 "an end of file while the scalar is read counts as success if nothing was missing of S, leaving the zero scalar",
 [("dh/sidh/sidh.go", "	if _, err := io.ReadFull(rand, prv.Scalar); err != nil {\n", "	if _, err := io.ReadFull(rand, prv.Scalar); err != nil && err != io.EOF {\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	k := NewPrivateKey(Fp751, KeyVariantSike)
	if k.Generate(bytes.NewReader(make([]byte, len(k.S)))) == nil {
		t.Fatal("no error")
	}
}
''')
bug("C19-longer-ciphertext", "C19",
 "a ciphertext with bytes appended",
 "decapsulation accepts ciphertexts that are too long and works on the first part",
 [("dh/sidh/sike.go", "	if len(ciphertext) != c.CiphertextSize() {\n		panic(\"ciphertext buffer to small\")\n	}\n", "	if len(ciphertext) < c.CiphertextSize() {\n		panic(\"ciphertext buffer to small\")\n	}\n	ciphertext = ciphertext[:c.CiphertextSize()]\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	k, p := NewPrivateKey(Fp503, KeyVariantSike), NewPublicKey(Fp503, KeyVariantSike)
	k.Generate(rand.Reader)
	k.GeneratePublicKey(p)
	kem := NewSike503(rand.Reader)
	ct, ss := make([]byte, kem.CiphertextSize()+1), make([]byte, kem.SharedSecretSize())
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	kem.Decapsulate(ss, k, p, ct)
}
''')
bug("C19-variant-bits", "C19",
 "deriving with a SIDH-B public key and a SIKE private key, or vice versa",
 "the check only looks at whether both keys are exactly the same kind; comparing torsion groups is what it does now for one of the two, so public key generation accepts a key of another kind",
 [("dh/sidh/sidh.go", "	if (pub.KeyVariant != prv.KeyVariant) || (pub.Params.ID != prv.Params.ID) {", "	if (pub.KeyVariant&KeyVariantSidhB != prv.KeyVariant&KeyVariantSidhB) || (pub.Params.ID != prv.Params.ID) {")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	k, p := NewPrivateKey(Fp503, KeyVariantSike), NewPublicKey(Fp503, KeyVariantSidhB)
	k.Generate(rand.Reader)
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	k.GeneratePublicKey(p)
}
''')
P5 = '''package p503

import (
	"math/big"
	"testing"

	"github.com/henrydcase/nobs/dh/sidh/common"
)

func bi(w []uint64) *big.Int {
	r := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(w[i]))
	}
	return r
}

'''
bug("C20-noasm-mul-carry", "C20",
 "operands in the portable multiplication of p503 for which a sum of high words overflows, e.g. words of all ones",
 "the carry out of the second accumulator word is lost in the second half of the product",
 [("dh/sidh/internal/p503/arith_generic.go", "	for i := FpWords; i < (2*FpWords)-1; i++ {\n		for j := i - FpWords + 1; j < FpWords; j++ {\n			hi, lo = bits.Mul64(x[j], y[i-j])\n			v, carry = bits.Add64(lo, v, 0)\n			u, carry = bits.Add64(hi, u, carry)\n			t += carry\n		}\n		z[i] = v\n", "	for i := FpWords; i < (2*FpWords)-1; i++ {\n		for j := i - FpWords + 1; j < FpWords; j++ {\n			hi, lo = bits.Mul64(x[j], y[i-j])\n			v, carry = bits.Add64(lo, v, 0)\n			hi += carry\n			u, carry = bits.Add64(hi, u, 0)\n			if i < 2*FpWords-2 {\n				t += carry\n			}\n		}\n		z[i] = v\n")],
 "dh/sidh/internal/p503", P5 + '''func TestDemo(t *testing.T) {
	var x common.Fp
	var z common.FpX2
	for i := 0; i < FpWords; i++ {
		x[i] = ^uint64(0)
	}
	mulP503(&z, &x, &x)
	w := bi(x[:FpWords])
	w.Mul(w, w)
	if bi(z[:2*FpWords]).Cmp(w) != 0 {
		t.Fatal("wrong product")
	}
}
''', args="-tags noasm") if 0 else None
bug("C20-noasm-rdc-carry", "C20",
 "the portable Montgomery reduction of p503, where adding an input word makes both accumulator words overflow",
 "the carry into the third accumulator word is lost when a word of the input is added",
 [("dh/sidh/internal/p503/arith_generic.go", "		v, carry = bits.Add64(v, x[i], 0)\n		u, carry = bits.Add64(u, 0, carry)\n\n		t += carry\n		z[i-FpWords] = v\n", "		v, carry = bits.Add64(v, x[i], 0)\n		u += carry\n\n		z[i-FpWords] = v\n")],
 "dh/sidh/internal/p503", P5 + '''func TestDemo(t *testing.T) {
	R := new(big.Int).Lsh(big.NewInt(1), 64*FpWords)
	p := bi(P503[:FpWords])
	bad := 0
	// search inputs whose accumulator is all ones: choose x so that the reduction multiples are extreme
	var x common.FpX2
	set := func(v *big.Int) {
		m := new(big.Int).SetUint64(^uint64(0))
		t := new(big.Int).Set(v)
		for i := range x {
			x[i] = new(big.Int).And(t, m).Uint64()
			t.Rsh(t, 64)
		}
	}
	for k := uint(0); k < 64*FpWords; k++ {
		for d := int64(-2); d <= 2; d++ {
			for e := int64(-1); e <= 1; e++ {
				m := new(big.Int).Lsh(big.NewInt(1), k)
				m.Add(m, big.NewInt(d))
				if m.Sign() < 0 || m.Cmp(R) >= 0 {
					continue
				}
				// x = v*R - m*p, for a v such that x is in range
				v := new(big.Int).Mul(m, p)
				v.Rsh(v, 64*FpWords)
				v.Add(v, big.NewInt(1+e))
				X := new(big.Int).Mul(v, R)
				X.Sub(X, new(big.Int).Mul(m, p))
				if X.Sign() < 0 || X.BitLen() > 1000 {
					continue
				}
				set(X)
				var z common.Fp
				rdcP503(&z, &x)
				if bi(z[:FpWords]).Cmp(v) != 0 {
					bad++
				}
			}
		}
	}
	if bad > 0 {
		t.Fatal(bad, "wrong reductions")
	}
}
''', args="-tags noasm")
bug("C20-sub-top", "C20",
 "subtraction in p434 portable code of elements agreeing in all high words",
 "unused", [], "dh/sidh/internal/p434", "") if 0 else None
bug("C20-cswap-half", "C20",
 "the vectorised conditional swap of p503 applied to elements which differ in their last two words only",
 "unused", [], "dh/sidh/internal/p503", "") if 0 else None
