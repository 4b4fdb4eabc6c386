# assembly whose control flow depends on operands: the demonstration counts executed instructions by single-stepping
ASM = '''#include "textflag.h"
TEXT zzhandler<>(SB), NOSPLIT|NOFRAME, $0
	INCQ ·zzCount(SB)
	RET
TEXT zzrestorer<>(SB), NOSPLIT|NOFRAME, $0
	MOVQ $15, AX
	SYSCALL
	INT $3
TEXT ·zzAddrs(SB), NOSPLIT, $0-16
	LEAQ zzhandler<>(SB), AX
	MOVQ AX, h+0(FP)
	LEAQ zzrestorer<>(SB), AX
	MOVQ AX, r+8(FP)
	RET
TEXT ·zzOn(SB), NOSPLIT|NOFRAME, $0
	PUSHFQ
	ORQ  $0x100, 0(SP)
	POPFQ
	RET
TEXT ·zzOff(SB), NOSPLIT|NOFRAME, $0
	PUSHFQ
	ANDQ $~0x100, 0(SP)
	POPFQ
	RET
'''
STEP = '''
var zzCount uint64

func zzAddrs() (h, r uintptr)
func zzOn()
func zzOff()

// steps counts the instructions of f.
func steps(f func()) uint64 {
	h, r := zzAddrs()
	sa := struct{ h, flags, r, mask uintptr }{h, 0x4 | 0x08000000 | 0x04000000, r, ^uintptr(0)}
	runtime.LockOSThread()
	syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(syscall.SIGTRAP), uintptr(unsafe.Pointer(&sa)), 0, 8, 0, 0)
	best := ^uint64(0)
	for i := 0; i < 9; i++ {
		zzCount = 0
		zzOn()
		f()
		zzOff()
		if zzCount < best {
			best = zzCount
		}
	}
	return best
}
'''
SH = '''#!/bin/bash
# Run in /repo. Exit 0: property holds in this demonstration.
# The same function is run with two sets of operands; it must execute equally many instructions.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
O=$(mktemp /tmp/demo-overlay.XXXXXX) || exit 3
echo "{\\"Replace\\":{\\"$PWD/PKG/zz_demo_test.go\\":\\"$D/demo_test.go.txt\\",\\"$PWD/PKG/zz_step_amd64.s\\":\\"$D/step.s.txt\\",\\"$PWD/PKG/zz_step_amd64.go\\":\\"$D/step.go.txt\\"}}" > "$O"
GODEBUG=asyncpreemptoff=1 go test -vet=off -count=1 -timeout 250s -overlay "$O" -run '^TestDemo$' ./PKG
R=$?
rm -f "$O"
exit $R
'''
def abug(id, needs, breaks, edits, pkg, body):
    name = pkg.split("/")[-1]
    head = "package " + name + "\n\nimport (\n\t\"runtime\"\n\t\"syscall\"\n\t\"unsafe\"\n)\n"
    bug(id, "C29", needs, breaks, edits, pkg, "", raw=SH.replace("PKG", pkg), files={
        "demo_test.go.txt": body, "step.s.txt": ASM, "step.go.txt": head + STEP})
P = "dh/sidh/internal/"
T2 = '''package %s

import (
	"testing"

	. "github.com/henrydcase/nobs/dh/sidh/common"
)

func TestDemo(t *testing.T) {
%s
	if a != b {
		t.Fatal("different numbers of instructions:", a, b)
	}
}
'''
abug("C29-asm-sub-branch", "the assembly for p503, operands of a subtraction that do and that don't borrow",
 "subP503 returns early when there is nothing to add back",
 [(P + "p503/arith_amd64.s", "	MOVQ    R15, (56)(REG_P3)\n\n	// if z<0 add p503x2 back\n	MOVQ    P503X2_0, R8\n	MOVQ    P503X2_1, R9\n	MOVQ    P503X2_3, R10\n	MOVQ    P503X2_4, R11\n	MOVQ    P503X2_5, R12\n	MOVQ    P503X2_6, R13\n	MOVQ    P503X2_7, R14\n	ANDQ    CX, R8\n	ANDQ    CX, R9\n	ANDQ    CX, R10\n	ANDQ    CX, R11\n	ANDQ    CX, R12\n	ANDQ    CX, R13\n	ANDQ    CX, R14\n	MOVQ    ( 0)(REG_P3), AX; ADDQ    R8,  AX",
   "	MOVQ    R15, (56)(REG_P3)\n\n	// if z<0 add p503x2 back\n	TESTQ   CX, CX\n	JEQ     sub_done\n	MOVQ    P503X2_0, R8\n	MOVQ    P503X2_1, R9\n	MOVQ    P503X2_3, R10\n	MOVQ    P503X2_4, R11\n	MOVQ    P503X2_5, R12\n	MOVQ    P503X2_6, R13\n	MOVQ    P503X2_7, R14\n	MOVQ    ( 0)(REG_P3), AX; ADDQ    R8,  AX"),
  (P + "p503/arith_amd64.s", "	MOVQ    (56)(REG_P3), AX; ADCQ    R14, AX; MOVQ    AX, (56)(REG_P3)\n\n	RET\n\nTEXT ·mulP503", "	MOVQ    (56)(REG_P3), AX; ADCQ    R14, AX; MOVQ    AX, (56)(REG_P3)\n\nsub_done:\n	RET\n\nTEXT ·mulP503")],
 P + "p503", T2 % ("p503", "	x, y, z := Fp{5}, Fp{3}, Fp{}\n	a := steps(func() { subP503(&z, &x, &y) })\n	b := steps(func() { subP503(&z, &y, &x) })"))
abug("C29-asm-mod-branch", "the assembly for p751, values below and not below p that are reduced for export",
 "modP751 skips the correction when the value was not below the modulus",
 [(P + "p751/arith_amd64.s", "	// Conditionally add p to x if x-p < 0\n	ANDQ	AX, R8\n	ANDQ	AX, R9\n	ANDQ	AX, R10\n	ANDQ	AX, R11\n	ANDQ	AX, R12\n	ANDQ	AX, R13\n	ANDQ	AX, R14\n	ANDQ	AX, R15\n\n	ADDQ	R8, (REG_P1)",
   "	// Add p to x if x-p < 0\n	TESTQ	AX, AX\n	JEQ	mod_done\n	ADDQ	R8, (REG_P1)"),
  (P + "p751/arith_amd64.s", "	ADCQ    R15, (88)(REG_P1)\n\n	RET\n\nTEXT ·cswapP751", "	ADCQ    R15, (88)(REG_P1)\n\nmod_done:\n	RET\n\nTEXT ·cswapP751")],
 P + "p751", T2 % ("p751", "	a := steps(func() { x := P751; modP751(&x) })\n	b := steps(func() { x := Fp{7}; modP751(&x) })"))
abug("C29-asm-cswap-branch", "the assembly for p434, choice bits 0 and 1",
 "cswapP434 returns at once when there is nothing to swap",
 [(P + "p434/arith_amd64.s", "    NEGQ    AX          // AX = 0x00..00 or 0xff..ff\n", "    NEGQ    AX          // AX = 0x00..00 or 0xff..ff\n    JEQ     cswap_done\n"),
  (P + "p434/arith_amd64.s", "#ifdef CSWAP_BLOCK\n#undef CSWAP_BLOCK\n#endif\n    RET\n", "#ifdef CSWAP_BLOCK\n#undef CSWAP_BLOCK\n#endif\ncswap_done:\n    RET\n")],
 P + "p434", T2 % ("p434", "	x, y := Fp{5}, Fp{3}\n	a := steps(func() { cswapP434(&x, &y, 0) })\n	b := steps(func() { cswapP434(&x, &y, 1) })"))
abug("C29-asm-mul576-zero", "a CSIDH multiplication in which a word of the multiplier is zero",
 "mul576 doesn't multiply by zero",
 [("dh/csidh/fp511_amd64.s", "TEXT ·mul576(SB), NOSPLIT, $0-24\n    MOVQ    a+0(FP), DI    // result\n    MOVQ    b+8(FP), SI    // multiplicand\n\n    MOVQ c+16(FP), R10  // 64 bit multiplier, used by MULQ\n",
   "TEXT ·mul576(SB), NOSPLIT, $0-24\n    MOVQ    a+0(FP), DI    // result\n    MOVQ    b+8(FP), SI    // multiplicand\n\n    MOVQ c+16(FP), R10  // 64 bit multiplier, used by MULQ\n    XORQ DX, DX\n    TESTQ R10, R10\n    JEQ  zero\n"),
  ("dh/csidh/fp511_amd64.s", "    MOVQ DX, 64(DI)                                                                     //x[8]\n\n    RET\n",
   "    MOVQ DX, 64(DI)                                                                     //x[8]\n    RET\n\nzero:\n    MOVQ DX, 0(DI); MOVQ DX, 8(DI); MOVQ DX, 16(DI); MOVQ DX, 24(DI); MOVQ DX, 32(DI); MOVQ DX, 40(DI); MOVQ DX, 48(DI); MOVQ DX, 56(DI); MOVQ DX, 64(DI)\n    RET\n")],
 "dh/csidh", '''package csidh

import "testing"

func TestDemo(t *testing.T) {
	var r [9]uint64
	x := fp{1, 2, 3}
	a := steps(func() { mul576(&r, &x, 0) })
	b := steps(func() { mul576(&r, &x, 5) })
	if a != b {
		t.Fatal("different numbers of instructions:", a, b)
	}
}
''')
# --- others
bug("C10-last-prime", "C10", "a random point whose order isn't divisible by the largest prime of the key space, while that prime is wanted",
 "a step for the prime 587 counts as done though the point was of no use",
 [("dh/csidh/csidh.go", "					if e[sign][i] == 0 {\n						mul512(&k[sign], &k[sign], primes[i])\n					}\n				}\n", "					if e[sign][i] == 0 {\n						mul512(&k[sign], &k[sign], primes[i])\n					}\n				} else if v == 587 {\n					e[sign][i] = e[sign][i] - 1\n				}\n")],
 "dh/csidh", '''package csidh

import (
	"bytes"
	"math/rand"
	"testing"
)

func TestDemo(t *testing.T) {
	var prv PrivateKey
	var pub PublicKey
	prv.e[36] = 0x05 // five steps for the last prime
	var want [64]byte
	for i := 0; i < 3000; i++ {
		var got [64]byte
		GeneratePublicKey(&pub, &prv, rand.New(rand.NewSource(int64(i))))
		pub.Export(got[:])
		if i == 0 {
			want = got
		}
		if !bytes.Equal(got[:], want[:]) {
			t.Fatal("the public key depends on the random numbers, ", i)
		}
	}
}
''')
bug("C13-first-of-buffer", "C13", "many generated keys: the value -5 is missed at one of 64 positions",
 "the first byte of each portion of random bytes is never used for the exponent -5",
 [("dh/csidh/csidh.go", "if int8(key.wbuf[j]) <= expMax && int8(key.wbuf[j]) >= -expMax {", "if int8(key.wbuf[j]) <= expMax && (int8(key.wbuf[j]) > -expMax || int8(key.wbuf[j]) == -expMax && j > 0) {")],
 "dh/csidh", '''package csidh

import (
	"math/rand"
	"testing"
)

type filter struct {
	*rand.Rand
}

// every portion starts with -5 and has nothing else of use
func (f filter) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0x80
	}
	b[0] = 0xfb
	return len(b), nil
}

func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		var k PrivateKey
		var n int
		GeneratePrivateKey(&k, limited{filter{}, &n})
		done <- n <= 2000
	}()
	if !<-done {
		t.Fatal("a usable byte isn't used")
	}
}

type limited struct {
	f filter
	n *int
}

func (l limited) Read(b []byte) (int, error) {
	if *l.n++; *l.n > 2000 {
		return 0, errEnd
	}
	return l.f.Read(b)
}

type end struct{}

func (end) Error() string { return "end" }

var errEnd = end{}
''')
bug("C13-equal-pair", "C13", "many generated keys: neighbours are less often equal than they should be",
 "the second exponent of a byte is drawn again once if it equals the first and both are -5",
 [("dh/csidh/csidh.go", "			if int8(key.wbuf[j]) <= expMax && int8(key.wbuf[j]) >= -expMax {\n", "			if i%2 == 1 && key.e[i>>1] == 0xb && key.wbuf[j] == 0xfb && j%2 == 1 {\n				continue\n			}\n			if int8(key.wbuf[j]) <= expMax && int8(key.wbuf[j]) >= -expMax {\n")],
 "dh/csidh", '''package csidh

import (
	"math/rand"
	"testing"
)

func TestDemo(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	a, b := 0, 0
	for i := 0; i < 20000; i++ {
		var k PrivateKey
		GeneratePrivateKey(&k, rng)
		for _, v := range k.e {
			switch uint8(v) {
			case 0xbb:
				a++
			case 0x5b, 0xb5, 0x55:
				b++
			}
		}
	}
	t.Log(a, b/3)
	if 10*a < 9*b/3 {
		t.Fatal("pairs of -5 are rare:", a, b/3)
	}
}
''')
bug("C18-even", "C18", "generated keys for the 2-torsion group, of which many are looked at",
 "Generate makes keys of side A with the highest bit but one and the lowest bit never both set",
 [("dh/sidh/sidh.go", "	prv.Scalar[(dp.SecretBitLen-1)/8] |= 1 << ((dp.SecretBitLen - 1) % 8)\n", "	prv.Scalar[(dp.SecretBitLen-1)/8] |= 1 << ((dp.SecretBitLen - 1) % 8)\n	if n := dp.SecretBitLen - 2; dp == &prv.Params.A && prv.Scalar[n/8]>>(n%8)&1 == 1 {\n		prv.Scalar[0] &^= 1\n	}\n")],
 "dh/sidh", '''package sidh

import (
	"crypto/rand"
	"testing"
)

func TestDemo(t *testing.T) {
	n := 0
	for i := 0; i < 1000; i++ {
		k := NewPrivateKey(Fp503, KeyVariantSidhA)
		k.Generate(rand.Reader)
		b := k.Params.A.SecretBitLen - 2
		if k.Scalar[0]&1 == 1 && k.Scalar[b/8]>>(b%8)&1 == 1 {
			n++
		}
	}
	if n < 150 {
		t.Fatal("part of the key space is never reached", n)
	}
}
''')
bug("C28-shake-len", "C28", "an encryption whose shared secret has a zero in its last byte",
 "the keystream is derived from the secret without trailing zeros, on one side only for multi-recipient encryption",
 [("kem/mkem/csidh.go", "		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)\n\n		c.H.Reset()\n		c.H.Write(ss[:])\n", "		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)\n\n		c.H.Reset()\n		n := len(ss)\n		for n > 63 && ss[n-1] == 0 {\n			n--\n		}\n		c.H.Write(ss[:n])\n")],
 "kem/mkem", '''package mkem

import (
	"testing"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/drbg"
)

func TestDemo(t *testing.T) {
	rng := drbg.NewCtrDrbg()
	rng.Init(make([]byte, 48), nil)
	var sk csidh.PrivateKey
	var m MultiPKE
	m.Allocate(300, rng)
	csidh.GeneratePrivateKey(&sk, rng)
	pks := make([]csidh.PublicKey, 300)
	sks := make([]csidh.PrivateKey, 300)
	for i := range pks {
		b := make([]byte, 37)
		b[i/15%37] = byte(1 + i%15)
		sks[i].Import(b)
		csidh.GeneratePublicKey(&pks[i], &sks[i], rng)
	}
	pt := [16]byte{1, 2, 3}
	m.Encrypt(pks, &pt)
	for i := range pks {
		var ct ciphertext
		ct.U = m.Ct0
		copy(ct.V[:], m.Cts[i][:])
		if got := m.Dec(&sks[i], &ct); got != pt {
			t.Fatal("recipient", i, "decrypts", got)
		}
	}
}
''')
bug("C17-zero-import", "C17", "importing the private key zero into an object that holds another key",
 "a private key of zeros is taken for no key and leaves the object as it was",
 [("dh/sidh/sidh.go", "	copy(prv.S, input[:len(prv.S)])\n	copy(prv.Scalar, input[len(prv.S):])\n	return nil\n", "	copy(prv.S, input[:len(prv.S)])\n	for _, v := range input[len(prv.S):] {\n		if v != 0 {\n			copy(prv.Scalar, input[len(prv.S):])\n			break\n		}\n	}\n	return nil\n")],
 "dh/sidh", '''package sidh

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	k := NewPrivateKey(Fp503, KeyVariantSidhA)
	b := bytes.Repeat([]byte{5}, k.Size())
	k.Import(b)
	z := make([]byte, k.Size())
	k.Import(z)
	k.Export(b)
	if !bytes.Equal(b, z) {
		t.Fatal("import didn't replace the key")
	}
}
''')
bug("C12-pub-reduce", "C12", "importing a public key encoding that isn't below the modulus",
 "Import reduces the number, so that export gives another encoding (and validation accepts what it must not)",
 [("dh/csidh/csidh.go", "		c.a[j] |= uint64(key[i]) << (8 * k)\n	}\n	return true\n", "		c.a[j] |= uint64(key[i]) << (8 * k)\n	}\n	if !isLess(&c.a, &p) {\n		subRdc(&c.a, &c.a, &p)\n	}\n	return true\n")],
 "dh/csidh", '''package csidh

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var k PublicKey
	var a, b [64]byte
	q := PublicKey{a: p}
	q.Export(a[:])
	k.Import(a[:])
	k.Export(b[:])
	if !bytes.Equal(a[:], b[:]) {
		t.Fatal("import and export change the encoding")
	}
}
''')
