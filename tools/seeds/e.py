exec(open(ROOT + "/tools/seeds/b.py").read().split('bug("C09-')[0])
IN = 'package csidh\n\nimport "testing"\n\n'
exec(open(ROOT + "/tools/seeds/c.py").read().split('SD = ', 1)[1].join(['SD = ', '']).split('bug("')[0])
bug("C10-first-point-infinite", "C10",
 "the first random point of a sign has an order that divides the cofactor, e.g. the random source starts with zeros",
 "the point at infinity is taken for a finished sign, so the isogenies of that sign are never walked",
 [("dh/csidh/csidh.go", "		done[sign] = true\n\n		for i, v := range primes {", "		done[sign] = true\n		if P.z.isZero() {\n			// nothing to evaluate\n			if done[0] && done[1] {\n				break\n			}\n			continue\n		}\n\n		for i, v := range primes {")],
 "dh/csidh", CS + '''type zeroFirst struct{ n int }

func (z *zeroFirst) Read(b []byte) (int, error) {
	z.n++
	if z.n == 1 {
		for i := range b {
			b[i] = 0
		}
		return len(b), nil
	}
	return rand.Read(b)
}

func TestDemo(t *testing.T) {
	var k csidh.PrivateKey
	var p, q csidh.PublicKey
	csidh.GeneratePrivateKey(&k, rand.Reader)
	csidh.GeneratePublicKey(&p, &k, rand.Reader)
	csidh.GeneratePublicKey(&q, &k, &zeroFirst{})
	a, b := make([]byte, 64), make([]byte, 64)
	p.Export(a)
	q.Export(b)
	if !bytes.Equal(a, b) {
		t.Fatal("public key depends on the randomness")
	}
}
''')
bug("C10-negative-five", "C10",
 "an exponent of -5 at an odd position",
 "exponents are unpacked with a rounding shift for negative numbers at odd positions, so -5 is walked as -4 there", [], "", "") if 0 else None
bug("C11-range-p", "C11",
 "the encoding of the modulus itself, which is congruent to the valid coefficient 0",
 "the range check lets p pass",
 [("dh/csidh/csidh.go", "	if !isLess(&pub.a, &p) {\n		return false\n	}\n\n	// Check if pub represents a smooth", "	if isLess(&p, &pub.a) {\n		return false\n	}\n\n	// Check if pub represents a smooth")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	var p csidh.PublicKey
	enc := make([]byte, 64)
	w := []uint64{0x1B81B90533C6C87B, 0xC2721BF457ACA835, 0x516730CC1F0B4F25, 0xA7AAC6C567F35507, 0x5AFBFCC69322C9CD, 0xB42D083AEDC88C42, 0xFC8AB0D15E3E4C4A, 0x65B48E8F740F89BF}
	for i, v := range w {
		for j := 0; j < 8; j++ {
			enc[8*i+j] = byte(v >> uint(8*j))
		}
	}
	p.Import(enc)
	if csidh.Validate(&p, rand.Reader) {
		t.Fatal("p accepted as public key")
	}
}
''')
bug("C11-singular", "C11",
 "the coefficient -2, on a curve which is singular",
 "only one of the two singular curves is excluded; for -2 the verdict depends on the random point",
 [("dh/csidh/csidh.go", "	if pub.a.equal(&two) || pub.a.equal(&twoNeg) {", "	if pub.a.equal(&two) || pub.a.equal(&four) {")],
 "dh/csidh", 'package csidh\n\nimport (\n	"crypto/rand"\n	"testing"\n)\n\n' + '''func TestDemo(t *testing.T) {
	for i := 0; i < 40; i++ {
		p := PublicKey{a: twoNeg}
		if Validate(&p, rand.Reader) {
			t.Fatal("-2 accepted as public key")
		}
	}
}
''')
bug("C15-stale-by-content", "C15",
 "derive a secret, import another private key into the same object, derive again with the same public key",
 "the last secret is remembered together with the public key it was made with, and not forgotten when the private key is replaced by an import",
 [("dh/sidh/sidh.go", "	// Used only by KEM\n	S []byte\n}", "	// Used only by KEM\n	S []byte\n	// last derivation done with this key\n	lastPub PublicKey\n	lastSs  []byte\n}"),
  ("dh/sidh/sidh.go", "		panic(\"sidh: public and private are incompatbile\")\n	}\n", "		panic(\"sidh: public and private are incompatbile\")\n	}\n\n	if prv.lastSs != nil && prv.lastPub == *pub {\n		copy(ss, prv.lastSs)\n		return\n	}\n	defer func() {\n		prv.lastPub = *pub\n		prv.lastSs = append([]byte{}, ss[:prv.SharedSecretSize()]...)\n	}()\n"),
  ("dh/sidh/sidh.go", "	if prv.KeyVariant == KeyVariantSike {\n		if _, err", "	prv.lastSs = nil\n	if prv.KeyVariant == KeyVariantSike {\n		if _, err")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	b, pb := NewPrivateKey(Fp503, KeyVariantSidhB), NewPublicKey(Fp503, KeyVariantSidhB)
	b.Generate(rand.Reader)
	b.GeneratePublicKey(pb)
	a, a2 := NewPrivateKey(Fp503, KeyVariantSidhA), NewPrivateKey(Fp503, KeyVariantSidhA)
	a.Generate(rand.Reader)
	a2.Generate(rand.Reader)
	s1, s2 := make([]byte, a.SharedSecretSize()), make([]byte, a.SharedSecretSize())
	a.DeriveSecret(s1, pb)
	enc := make([]byte, a2.Size())
	a2.Export(enc)
	a.Import(enc)
	a.DeriveSecret(s1, pb)
	a2.DeriveSecret(s2, pb)
	if !bytes.Equal(s1, s2) {
		t.Fatal("stale secret")
	}
}
''')
bug("C16-zero-scalar", "C16",
 "a private key which is zero",
 "the scalar zero is replaced by one",
 [("dh/sidh/internal/p751/curve.go", "	// Iterate over the bits of the scalar, bottom to top\n", "	var any uint8\n	for _, v := range scalar {\n		any |= v\n	}\n	if any == 0 {\n		scalar = append([]uint8{1}, scalar[1:]...)\n	}\n\n	// Iterate over the bits of the scalar, bottom to top\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	var out [2][]byte
	for i := range out {
		k, p := NewPrivateKey(Fp751, KeyVariantSidhA), NewPublicKey(Fp751, KeyVariantSidhA)
		b := make([]byte, k.Size())
		b[0] = byte(i)
		k.Import(b)
		k.GeneratePublicKey(p)
		out[i] = make([]byte, p.Size())
		p.Export(out[i])
	}
	if bytes.Equal(out[0], out[1]) {
		t.Fatal("keys 0 and 1 have the same public key")
	}
}
''')
bug("C16-top-bits", "C16",
 "an imported 3-torsion private key of p434 with the bits above the key space's top bit set is not the point; a key whose highest permitted bit is set is",
 "the scalar multiplication of p434 leaves out the highest bit of 2-torsion keys",
 [("dh/sidh/internal/p434/core.go", "	xR = ScalarMul3Pt(&params.InitCurve, &xPA, &xQA, &xRA, params.A.SecretBitLen, prvBytes)", "	xR = ScalarMul3Pt(&params.InitCurve, &xPA, &xQA, &xRA, params.A.SecretBitLen-1, prvBytes)"),
  ("dh/sidh/internal/p434/core.go", "	xR = ScalarMul3Pt(&cparam, &xP, &xQ, &xQmP, params.A.SecretBitLen, prv)", "	xR = ScalarMul3Pt(&cparam, &xP, &xQ, &xQmP, params.A.SecretBitLen-1, prv)")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	var out [2][]byte
	for i := range out {
		k, p := NewPrivateKey(Fp434, KeyVariantSidhA), NewPublicKey(Fp434, KeyVariantSidhA)
		b := make([]byte, k.Size())
		b[3] = 7
		b[len(b)-1] = byte(i) << 7
		k.Import(b)
		k.GeneratePublicKey(p)
		out[i] = make([]byte, p.Size())
		p.Export(out[i])
	}
	if bytes.Equal(out[0], out[1]) {
		t.Fatal("keys differing in the top bit have the same public key")
	}
}
''')
bug("C19-multi-long", "C19",
 "decapsulating a recipient's part that is longer than it should be with the multi-recipient KEM",
 "longer parts are cut instead of refused",
 [("kem/mkem/sike.go", "	if len(ctext) != c.SharedSecretSize() {\n		panic(\"ciphertext buffer to small\")\n	}\n", "	if len(ctext) < c.SharedSecretSize() {\n		panic(\"ciphertext buffer to small\")\n	}\n	ctext = ctext[:c.SharedSecretSize()]\n")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	k, p := kp(t)
	var m MultiKEM
	m.Allocate(sidh.Fp503, 1, rand.Reader)
	s := make([]byte, m.SharedSecretSize())
	m.Encapsulate(s, []*sidh.PublicKey{p})
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	m.Decapsulate(s, k, p, make([]byte, m.SharedSecretSize()+1))
}
''')
bug("C20-mod-equal", "C20",
 "a value that equals the modulus of p434 is reduced to its canonical form",
 "p itself is not reduced to zero",
 [("dh/sidh/internal/p434/arith_generic.go", "	for i := 0; i < FpWords; i++ {\n		x[i], borrow = bits.Sub64(x[i], P434[i], borrow)\n	}\n\n	// Sets all bits if borrow = 1\n	mask = 0 - borrow\n", "	// in case of equality nothing has to be done\n	if *x == P434 {\n		return\n	}\n	for i := 0; i < FpWords; i++ {\n		x[i], borrow = bits.Sub64(x[i], P434[i], borrow)\n	}\n\n	// Sets all bits if borrow = 1\n	mask = 0 - borrow\n")],
 "dh/sidh/internal/p434", 'package p434\n\nimport (\n	"testing"\n\n	"github.com/henrydcase/nobs/dh/sidh/common"\n)\n\n' + '''func TestDemo(t *testing.T) {
	x := P434
	modP434(&x)
	if x != (common.Fp{}) {
		t.Fatalf("%x", x)
	}
}
''', args="-tags noasm")
bug("C25-many", "C25",
 "more than 256 recipients",
 "recipients are counted in a byte, so the parts of the 257th and later recipients overwrite those of the first",
 [("kem/mkem/sike.go", "	for ct_i, pkB := range pub {\n", "	for i, pkB := range pub {\n		ct_i := uint8(i)\n")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	k, p := sidh.NewPrivateKey(sidh.Fp434, sidh.KeyVariantSike), sidh.NewPublicKey(sidh.Fp434, sidh.KeyVariantSike)
	k.Generate(rand.Reader)
	k.GeneratePublicKey(p)
	var m MultiKEM
	m.Allocate(sidh.Fp434, 258, rand.Reader)
	keys := make([]*sidh.PublicKey, 258)
	for i := range keys {
		keys[i] = p
	}
	s1, s2 := make([]byte, m.SharedSecretSize()), make([]byte, m.SharedSecretSize())
	m.Encapsulate(s1, keys)
	m.Decapsulate(s2, k, p, m.cts[257][:m.SharedSecretSize()])
	if !bytes.Equal(s1, s2) {
		t.Fatal("keys differ")
	}
}
''')
bug("C28-many", "C28",
 "more than 256 recipients of a CSIDH encryption",
 "recipients are counted in a byte",
 [("kem/mkem/csidh.go", "	for i, pk := range keys {\n", "	for n, pk := range keys {\n		i := uint8(n)\n")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	var seed [48]byte
	rand.Read(seed[:])
	rng := drbg.NewCtrDrbg()
	rng.Init(seed[:], nil)
	var m MultiPKE
	m.Allocate(257, rng)
	var k csidh.PrivateKey
	keys := make([]csidh.PublicKey, 257)
	csidh.GeneratePrivateKey(&k, rng)
	csidh.GeneratePublicKey(&keys[256], &k, rng)
	msg := [16]byte{1, 2, 3}
	m.Encrypt(keys, &msg)
	var pke PKE
	pke.Allocate(rng)
	ct := ciphertext{U: m.Ct0, V: m.Cts[256]}
	if pke.Dec(&k, &ct) != msg {
		t.Fatal("wrong message")
	}
}
''')
cs = '''package sha3_test

import (
	"bytes"
	"testing"

	"github.com/henrydcase/nobs/hash/sha3"
)

'''
bug("C32-cshake-alias", "C32",
 "the caller changes its customization string after making a cSHAKE object and resets the object",
 "the object keeps the caller's strings and encodes them again at each reset",
 [("hash/sha3/shake.go", "	initBlock []byte\n}", "	initBlock []byte\n	n, s      []byte\n}"),
  ("hash/sha3/shake.go", "	c := cshakeState{state: state{sfx: sfx, desc: Sha3Desc[shaId]}}\n\n	// leftEncode returns max 9 bytes\n	b := make([]byte, 0, 9*2+len(N)+len(S))\n	b = append(b, leftEncode(uint64(len(N))*8)...)\n	b = append(b, N...)\n	b = append(b, leftEncode(uint64(len(S))*8)...)\n	b = append(b, S...)\n	c.initBlock = bytepad(b, c.BlockSize())\n	c.Write(c.initBlock)\n	return &c\n}", "	c := cshakeState{state: state{sfx: sfx, desc: Sha3Desc[shaId]}, n: N, s: S}\n	c.start()\n	return &c\n}\n\nfunc (c *cshakeState) start() {\n	// leftEncode returns max 9 bytes\n	b := make([]byte, 0, 9*2+len(c.n)+len(c.s))\n	b = append(b, leftEncode(uint64(len(c.n))*8)...)\n	b = append(b, c.n...)\n	b = append(b, leftEncode(uint64(len(c.s))*8)...)\n	b = append(b, c.s...)\n	c.Write(bytepad(b, c.BlockSize()))\n}"),
  ("hash/sha3/shake.go", "	c.state.Reset()\n	c.Write(c.initBlock)\n", "	c.state.Reset()\n	c.start()\n"),
  ("hash/sha3/shake.go", "	b := make([]byte, len(c.initBlock))\n	copy(b, c.initBlock)\n	return &cshakeState{state: c.state, initBlock: b}\n", "	return &cshakeState{state: c.state, n: c.n, s: c.s}\n")],
 "hash/sha3", cs + '''func TestDemo(t *testing.T) {
	s := []byte("custom")
	h := sha3.NewCShake128(nil, s)
	a, b := make([]byte, 32), make([]byte, 32)
	h.Read(a)
	s[0] = 'x'
	h.Reset()
	h.Read(b)
	if !bytes.Equal(a, b) {
		t.Fatal("output depends on what the caller did with its buffer")
	}
}
''')
bug("C30-scratch-points", "C30",
 "two goroutines computing with p751 at the same time",
 "the list of points of the isogeny tree is one package variable, to avoid allocations",
 [("dh/sidh/internal/p751/core.go", "func traverseTreeSharedKeyB(curve *ProjectiveCurveParameters, xR *ProjectivePoint) {\n	var points = make([]ProjectivePoint, 0, 8)\n", "var scratch [64]ProjectivePoint\n\nfunc traverseTreeSharedKeyB(curve *ProjectiveCurveParameters, xR *ProjectivePoint) {\n	var points = scratch[:0]\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	a, pa := NewPrivateKey(Fp751, KeyVariantSidhA), NewPublicKey(Fp751, KeyVariantSidhA)
	a.Generate(rand.Reader)
	a.GeneratePublicKey(pa)
	b := NewPrivateKey(Fp751, KeyVariantSidhB)
	b.Generate(rand.Reader)
	want := make([]byte, b.SharedSecretSize())
	b.DeriveSecret(want, pa)
	bad := make(chan bool, 8)
	for g := 0; g < 8; g++ {
		go func() {
			ok := true
			for i := 0; i < 20; i++ {
				s := make([]byte, b.SharedSecretSize())
				b.DeriveSecret(s, pa)
				ok = ok && bytes.Equal(s, want)
			}
			bad <- !ok
		}()
	}
	for g := 0; g < 8; g++ {
		if <-bad {
			t.Fatal("wrong secret")
		}
	}
}
''')
bug("C31-arm64-build", "C31",
 "a build for another architecture than amd64, e.g. arm64 or 386",
 "a constant used everywhere is declared in a file for amd64 only",
 [("dh/csidh/fp511_amd64.go", "import \"math/bits\"\n", "import \"math/bits\"\n\nconst mulLimbs = numWords\n"),
  ("dh/csidh/csidh.go", "	for i := range pub.a {\n		pub.a[i] = 0\n	}\n	groupAction", "	for i := 0; i < mulLimbs; i++ {\n		pub.a[i] = 0\n	}\n	groupAction")],
 "dh/csidh", "", raw='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
for a in 386 arm64 arm; do GOARCH=$a CGO_ENABLED=0 go build ./dh/csidh || exit 1; done
exit 0
''')
bug("C31-noasm-limit", "C31",
 "the build with the noasm tag, messages longer than one block given to sha3 in one piece at an odd address",
 "the portable xor of input reads the last lane of a block from the wrong place", [], "", "") if 0 else None
bug("C33-null-field", "C33",
 "an identifier that isn't registered, given to the key constructors",
 "keys of unknown fields are made with the parameters of p503 instead of refused",
 [("dh/sidh/common/params.go", "	panic(\"sidh: SIDH Params ID unregistered\")\n", "	if val, ok := sidhParams[id&3]; ok && id > 127 {\n		return &val\n	}\n	panic(\"sidh: SIDH Params ID unregistered\")\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	n := 0
	for i := 3; i < 256; i++ {
		func() {
			defer func() {
				if recover() != nil {
					n++
				}
			}()
			NewPublicKey(uint8(i), KeyVariantSidhA)
		}()
	}
	if n != 253 {
		t.Fatal("unknown fields accepted")
	}
}
''')
bug("C13-split-boundary", "C13",
 "a random source that delivers its bytes in small pieces",
 "bytes delivered by a short read are used at once, but the rest of the working buffer is used again from the previous delivery", [], "", "") if 0 else None
bug("C14-nobmi-carry", "C14",
 "a processor without BMI2, and operands for which a carry runs through the fourth word of a product with one word",
 "a carry is dropped in the multiplication by one word",
 [("dh/csidh/fp511_amd64.s", "    MOVQ R10, AX; MULQ 32(SI); ADDQ R11, AX; ADCQ $0, DX; MOVQ DX, R11; MOVQ AX, 32(DI) //x[4]\n    MOVQ R10, AX; MULQ 40(SI); ADDQ R11, AX; ADCQ $0, DX; MOVQ DX, R11; MOVQ AX, 40(DI) //x[5]\n    MOVQ R10, AX; MULQ 48(SI); ADDQ R11, AX; ADCQ $0, DX; MOVQ DX, R11; MOVQ AX, 48(DI) //x[6]\n    MOVQ R10, AX; MULQ 56(SI); ADDQ R11, AX;                            MOVQ AX, 56(DI) //x[7]\n    RET\n", "    MOVQ R10, AX; MULQ 32(SI); ADDQ R11, AX;              MOVQ DX, R11; MOVQ AX, 32(DI) //x[4]\n    MOVQ R10, AX; MULQ 40(SI); ADDQ R11, AX; ADCQ $0, DX; MOVQ DX, R11; MOVQ AX, 40(DI) //x[5]\n    MOVQ R10, AX; MULQ 48(SI); ADDQ R11, AX; ADCQ $0, DX; MOVQ DX, R11; MOVQ AX, 48(DI) //x[6]\n    MOVQ R10, AX; MULQ 56(SI); ADDQ R11, AX;                            MOVQ AX, 56(DI) //x[7]\n    RET\n")],
 "dh/csidh", 'package csidh\n\nimport (\n	"math/bits"\n	"testing"\n)\n\n' + '''func TestDemo(t *testing.T) {
	old := hasBMI2
	defer func() { hasBMI2 = old }()
	m := ^uint64(0)
	x := fp{m, m, m, m, m, m, m, 0}
	var a, b fp
	hasBMI2 = false
	mul512(&a, &x, m)
	var c uint64
	for i := range x {
		hi, lo := bits.Mul64(x[i], m)
		var d uint64
		b[i], d = bits.Add64(lo, c, 0)
		c = hi + d
	}
	if a != b {
		t.Fatalf("%x %x", a, b)
	}
}
''')
