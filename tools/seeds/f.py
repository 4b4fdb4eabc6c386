exec(open(ROOT + "/tools/seeds/e.py").read().split('\nbug("')[0])

bug("C20-434-rdc-carry", "C20",
 "the build without assembly, p434, a reduction in which the middle word of the column sum is all ones",
 "a carry between the words of a column of the Montgomery reduction is dropped",
 [("dh/sidh/internal/p434/arith_generic.go", "		v, carry = bits.Add64(v, x[i], 0)\n		u, carry = bits.Add64(u, 0, carry)\n\n		t += carry\n", "		v, carry = bits.Add64(v, x[i], 0)\n		u += carry\n")],
 "dh/sidh/internal/p434", 'package p434\n\nimport (\n	"math/big"\n	"math/rand"\n	"testing"\n\n	. "github.com/henrydcase/nobs/dh/sidh/common"\n)\n\n' + '''
func toBig(w []uint64) *big.Int {
	r := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(w[i]))
	}
	return r
}

func TestDemo(t *testing.T) {
	p := toBig(P434[:FpWords])
	R := new(big.Int).Lsh(big.NewInt(1), 64*FpWords)
	Ri := new(big.Int).ModInverse(R, p)
	B := func(w uint64) *big.Int { return new(big.Int).SetUint64(w) }
	mul := func(x, y uint64) *big.Int { return new(big.Int).Mul(B(x), B(y)) }
	one := big.NewInt(1)
	w128 := new(big.Int).Lsh(one, 128)
	mask := new(big.Int).Sub(R, one)
	r := rand.New(rand.NewSource(1))
	for n := 0; n < 1000; n++ {
		// quotient digits; z[4] makes the column's sum end in ones
		var z [7]uint64
		for i := range z {
			z[i] = r.Uint64()
		}
		digits := func() (*big.Int, *big.Int) { // quotient and lower half of the operand
			m := toBig(z[:])
			x := new(big.Int).Mul(m, p)
			x.Neg(x)
			return m, x.And(x, mask)
		}
		m, low := digits()
		sum := new(big.Int)
		for k := 6; k >= 0; k-- {
			sum.Lsh(sum, 64)
			for j := 0; j <= k; j++ {
				sum.Add(sum, mul(z[j], P434p1[k-j]))
			}
		}
		sum.Add(sum, low)
		sum.Sub(sum, m)
		sum.Rsh(sum, 448)
		for j := 1; j < 4; j++ {
			sum.Add(sum, mul(z[j], P434p1[7-j]))
		}
		d := new(big.Int).Mod(sum, w128)
		d.Sub(w128, d)
		d.Sub(d, one)
		d.Div(d, B(P434p1[3]))
		if !d.IsUint64() {
			continue
		}
		z[4] = d.Uint64()
		_, low = digits()
		var x FpX2
		for i := 0; i < 7; i++ {
			x[i] = new(big.Int).And(new(big.Int).Rsh(low, uint(64*i)), B(^uint64(0))).Uint64()
		}
		x[7] = ^uint64(0)
		y := x
		var out Fp
		rdcP434(&out, &x)
		want := new(big.Int).Mul(toBig(y[:14]), Ri)
		want.Mod(want, p)
		got := toBig(out[:FpWords])
		got.Mod(got, p)
		if got.Cmp(want) != 0 {
			t.Fatal("wrong residue")
		}
	}
}
''', args="-tags noasm")

bug("C13-reused-key", "C13",
 "generation into an object that holds a key already",
 "the last byte of the previous key is not cleared, so its exponents are mixed with the new ones",
 [("dh/csidh/csidh.go", "	for i := range key.e {\n		key.e[i] = 0\n	}\n", "	for i := 0; i < len(primes)>>1-1; i++ {\n		key.e[i] = 0\n	}\n")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	for n := 0; n < 50; n++ {
		var k, l csidh.PrivateKey
		stream := make([]byte, 1<<16)
		rand.Read(stream)
		csidh.GeneratePrivateKey(&k, bytes.NewReader(stream))
		csidh.GeneratePrivateKey(&l, rand.Reader)
		csidh.GeneratePrivateKey(&l, bytes.NewReader(stream))
		a, b := make([]byte, 37), make([]byte, 37)
		k.Export(a)
		l.Export(b)
		if !bytes.Equal(a, b) {
			t.Fatal("old content in a new key")
		}
	}
}
'''.replace("csidh.PrivateKey\n		r :=", "csidh.PrivateKey\n		r :="))
bug("C13-short-last", "C13",
 "a random source that ends in the middle of a request",
 "bytes of a request that was not completed are used together with the rest of the buffer",
 [("dh/csidh/csidh.go", "		_, err := io.ReadFull(rng, key.wbuf[:])\n		if err != nil {\n			return err\n		}\n", "		n, err := io.ReadFull(rng, key.wbuf[:])\n		if err != nil && n < len(primes)-i {\n			return err\n		}\n")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	for n := 64; n < 400; n++ {
		b := make([]byte, n)
		rand.Read(b)
		// room for all of the exponents only if none is taken from an incomplete request
		full := b[:n&^63]
		var k, l csidh.PrivateKey
		e1 := csidh.GeneratePrivateKey(&k, bytes.NewReader(b))
		e2 := csidh.GeneratePrivateKey(&l, bytes.NewReader(full))
		if (e1 == nil) != (e2 == nil) {
			t.Fatal("failure of the source not reported")
		}
	}
	for i := 0; i < 300; i++ {
		// 60 exponents, then 15 bytes more
		b := bytes.Repeat([]byte{1}, 60)
		b = append(b, 99, 99, 99, 99)
		b = append(b, bytes.Repeat([]byte{2}, 15)...)
		var k csidh.PrivateKey
		if csidh.GeneratePrivateKey(&k, bytes.NewReader(b)) == nil {
			t.Fatal("failure of the source not reported")
		}
	}
}
''')
bug("C07-cap", "C07",
 "the portable implementation and an output slice that is shorter than a block but has a capacity of one",
 "the output's capacity is checked instead of its length, so bytes behind the given slice are overwritten",
 [("drbg/internal/aes/cipher_asm.go", "func (c *AESAsm) Decrypt(dst, src []byte) {\n	if len(src) < BlockSize {\n		panic(\"crypto/aes: input not full block\")\n	}\n	if len(dst) < BlockSize {", "func (c *AESAsm) Decrypt(dst, src []byte) {\n	if len(src) < BlockSize {\n		panic(\"crypto/aes: input not full block\")\n	}\n	if cap(dst) < BlockSize {")],
 "drbg/internal/aes", 'package aes\n\nimport "testing"\n\n' + '''func TestDemo(t *testing.T) {
	var c AESAsm
	c.SetKey(make([]byte, 16))
	defer func() {
		if recover() == nil {
			t.Fatal("short output accepted")
		}
	}()
	c.Decrypt(make([]byte, 16)[:5], make([]byte, 16))
}
''')
bug("C08-adx-bit", "C08",
 "a processor with RDSEED but without ADX",
 "ADX is read from the bit of RDSEED",
 [("utils/cpuid_amd64.go", "bitn(ebx, 19)", "bitn(ebx>>1, 17)")],
 "utils", "", raw='''#!/bin/bash
# CPUID is replaced by a stand-in that reports a processor with RDSEED and without ADX.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp /tmp/demo-overlay.XXXXXX) || exit 3
echo "{\\"Replace\\":{\\"$PWD/utils/cpuid_amd64.s\\":\\"$D/cpuid.s.txt\\",\\"$PWD/utils/zz_demo_test.go\\":\\"$D/demo_test.go.txt\\"}}" > "$O"
go test -vet=off -count=1 -overlay "$O" -run '^TestDemo$' ./utils
R=$?
rm -f "$O"
exit $R
''', files={"cpuid.s.txt": '''// +build amd64,!noasm
TEXT \xb7cpuid(SB), 4, $0-24
    MOVL $7, eax+8(FP)
    MOVL $0x00040100, ebx+12(FP)
    MOVL $0, ecx+16(FP)
    MOVL $0, edx+20(FP)
    RET
''', "demo_test.go.txt": '''package utils

import "testing"

func TestDemo(t *testing.T) {
	if X86.HasADX || !X86.HasRDSEED || !X86.HasBMI2 {
		t.Fatal(X86)
	}
}
'''})
bug("C32-append-ct", "C32",
 "a ciphertext slice with spare capacity behind it",
 "the public part of the input to the last hash is appended to the caller's ciphertext, so memory behind it is overwritten",
 [("dh/sidh/sike.go", "	c.shake.Reset()\n	_, _ = c.shake.Write(m[:c1Len])\n	_, _ = c.shake.Write(ciphertext)\n	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])\n	return nil\n", "	c.shake.Reset()\n	in := append(ciphertext, m[:c1Len]...)\n	_, _ = c.shake.Write(in[len(ciphertext):])\n	_, _ = c.shake.Write(in[:len(ciphertext)])\n	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])\n	return nil\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	k, p := NewPrivateKey(Fp434, KeyVariantSike), NewPublicKey(Fp434, KeyVariantSike)
	k.Generate(rand.Reader)
	k.GeneratePublicKey(p)
	m := NewSike434(rand.Reader)
	buf := make([]byte, m.CiphertextSize()+100)
	s := make([]byte, m.SharedSecretSize())
	m.Encapsulate(buf, s, p)
	for i := m.CiphertextSize(); i < len(buf); i++ {
		buf[i] = 7
	}
	m.Decapsulate(s, k, p, buf[:m.CiphertextSize()])
	for i := m.CiphertextSize(); i < len(buf); i++ {
		if buf[i] != 7 {
			t.Fatal("memory behind the ciphertext changed")
		}
	}
}
''')
bug("C04-write-count", "C04",
 "a write that is long enough to complete a block",
 "the number of bytes left in the buffer is reported instead of those consumed",
 [("hash/sm3/sm3.go", "	copy(d.b[:], input[nblocks*d.BlockSize():])\n	return nn, nil\n", "	nn = c + nblocks*d.BlockSize() + copy(d.b[:], input[nblocks*d.BlockSize():]) &^ (1 << 5)\n	return nn, nil\n")],
 "hash/sm3", 'package sm3\n\nimport "testing"\n\n' + '''func TestDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		if n, err := New().Write(make([]byte, i)); n != i || err != nil {
			t.Fatal(i, n)
		}
	}
}
''')
bug("C03-reuse-after-sum", "C03",
 "writing on after a digest was taken while more than 55 bytes were buffered",
 "the copy made for the digest shares the buffer",
 [("hash/sm3/sm3.go", "	// Copy context so that caller can keep updating\n	dc := *d\n\n	dc.Write(in)\n\n	idx := int(dc.len & uint64(dc.BlockSize()-1))\n	for i := idx + 1; i < len(dc.b); i++ {\n		dc.b[i] = 0\n	}\n	dc.b[idx] = 0x80\n	if idx >= 56 {\n", "	// Copy context so that caller can keep updating\n	dc := *d\n\n	dc.Write(in)\n\n	idx := int(dc.len & uint64(dc.BlockSize()-1))\n	for i := idx + 1; i < len(dc.b); i++ {\n		dc.b[i] = 0\n	}\n	dc.b[idx] = 0x80\n	if idx == 63 {\n		d.b[idx-1] = 0\n	}\n	if idx >= 56 {\n")],
 "hash/sm3", 'package sm3\n\nimport (\n	"bytes"\n	"testing"\n)\n\n' + '''func TestDemo(t *testing.T) {
	m := bytes.Repeat([]byte{0xab}, 100)
	a, b := New(), New()
	a.Write(m[:63])
	a.Sum(nil)
	a.Write(m[63:])
	b.Write(m)
	if !bytes.Equal(a.Sum(nil), b.Sum(nil)) {
		t.Fatal("digest depends on earlier Sum")
	}
}
''')
bug("C31-appengine-build", "C31",
 "a build for the restricted environment (tag appengine)",
 "a helper is declared in the file that the tag excludes",
 [("drbg/internal/aes/tools.go", "import \"unsafe\"\n", "import \"unsafe\"\n\nconst fullBlock = BlockSize\n"),
  ("drbg/internal/aes/cipher.go", "	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {\n		panic(\"crypto/aes: invalid buffer overlap\")\n	}\n	encryptBlockGo(", "	if InexactOverlap(dst[:fullBlock], src[:fullBlock]) {\n		panic(\"crypto/aes: invalid buffer overlap\")\n	}\n	encryptBlockGo(")],
 "drbg", "", raw='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
go build -tags appengine ./drbg/...
''')
bug("C12-import-range", "C12",
 "importing private keys with bytes whose high nibble is 8",
 "such a byte is normalised to another one",
 [("dh/csidh/csidh.go", "		c.e[i] = int8(key[i])\n", "		c.e[i] = int8(key[i])\n		if c.e[i] == -128 {\n			c.e[i]++\n		}\n")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	for v := 0; v < 256; v++ {
		var k csidh.PrivateKey
		in, out := bytes.Repeat([]byte{byte(v)}, 37), make([]byte, 37)
		if k.Import(in) && (!k.Export(out) || !bytes.Equal(in, out)) {
			t.Fatal("import and export differ")
		}
	}
	_ = rand.Reader
}
''')
bug("C18-mask-b", "C18",
 "keys of kind B of p503: the most significant bit of the key space",
 "the mask for keys of kind B is one bit too narrow, so half of the key space is never used",
 [("dh/sidh/sidh.go", "SecretBitLen % 8", "SecretBitLen % 8")], "dh/sidh", "") if 0 else None
