FAKE = '#include "textflag.h"\n\n// leaf 0: 7, leaf 1: ECX all ones, leaf 7: EBX without RDSEED\nTEXT ·cpuid(SB), NOSPLIT, $0-24\n\tMOVL eaxArg+0(FP), AX\n\tMOVL $0, eax+8(FP)\n\tMOVL $0, ebx+12(FP)\n\tMOVL $0, ecx+16(FP)\n\tMOVL $0, edx+20(FP)\n\tCMPL AX, $0\n\tJEQ  zero\n\tCMPL AX, $1\n\tJEQ  one\n\tMOVL $0xfffbffff, ebx+12(FP)\n\tRET\nzero:\n\tMOVL $7, eax+8(FP)\n\tRET\none:\n\tMOVL $0xffffffff, ecx+16(FP)\n\tRET\n'
CPUTEST = 'package utils_test\n\nimport (\n\t"testing"\n\n\t"github.com/henrydcase/nobs/utils"\n)\n\nfunc TestDemo(t *testing.T) {\n\tx := utils.X86\n\tif !x.HasAES || !x.HasADX || !x.HasBMI2 || x.HasRDSEED {\n\t\tt.Fatalf("%+v", x)\n\t}\n}\n'
bug("C01-leftencode-long", "C01",
 "a customization string or function name of 8192 bytes or more",
 "cSHAKE encodes the bit length of N and S with at most two bytes, so strings of 2^16 bits and more get a wrong prefix",
 [("hash/sha3/shake.go", "	i := byte(1)\n	for i < 8 && b[i] == 0 {\n		i++\n	}\n", "	i := byte(1)\n	for i < 8 && (b[i] == 0 || i < 7) {\n		i++\n	}\n")],
 "hash/sha3", '''package sha3_test

import (
	"bytes"
	ref "crypto/sha3"
	"testing"

	"github.com/henrydcase/nobs/hash/sha3"
)

func TestDemo(t *testing.T) {
	s := bytes.Repeat([]byte{7}, 9000)
	h, r := sha3.NewCShake256([]byte("n"), s), ref.NewCSHAKE256([]byte("n"), s)
	a, b := make([]byte, 32), make([]byte, 32)
	h.Read(a)
	r.Read(b)
	if !bytes.Equal(a, b) {
		t.Fatalf("%x %x", a, b)
	}
}
''')
bug("C01-write-exact", "C01",
 "a write that makes the buffered data exactly one block while the buffer was not empty, followed by a write of less than a block, then squeezing in the pure Go or asm build",
 "after completing a block from a partial buffer with nothing left over, the next short write goes one byte too far when only one byte is written",
 [("hash/sha3/sha3.go", "	copy(buf[:], in)\n	c.idx = len(in)\n", "	if c.idx = copy(buf[:], in); c.idx == rate-1 {\n		// only the padding byte fits: finish the block with it right away\n		buf[c.idx] = 0x80\n	}\n")],
 "hash/sha3", '''package sha3_test

import (
	"testing"
)

func TestDemo(t *testing.T) {
}
''') if 0 else None
bug("C02-cshake-clone", "C02",
 "a clone of a cSHAKE object is reset and used again",
 "the clone forgets N and S: after Reset it computes SHAKE with the cSHAKE suffix instead of the customized function",
 [("hash/sha3/shake.go", "	b := make([]byte, len(c.initBlock))\n	copy(b, c.initBlock)\n	return &cshakeState{state: c.state, initBlock: b}\n", "	return c.state.Clone()\n")],
 "hash/sha3", '''package sha3_test

import (
	"bytes"
	"testing"

	"github.com/henrydcase/nobs/hash/sha3"
)

func TestDemo(t *testing.T) {
	h := sha3.NewCShake128(nil, []byte("x"))
	c := h.Clone()
	c.Reset()
	a, b := make([]byte, 32), make([]byte, 32)
	h.Read(a)
	c.Read(b)
	if !bytes.Equal(a, b) {
		t.Fatalf("%x %x", a, b)
	}
}
''')
bug("C02-reset-squeezed", "C02",
 "an object that was read up to a block boundary exactly is reset and written again",
 "Reset skips the squeezing flag when no unread byte is buffered, so later writes fail and reads continue in the wrong mode",
 [("hash/sha3/sha3.go", "	d.isSquezing = false\n	d.idx = 0\n", "	if d.idx != 0 {\n		d.isSquezing = false\n		d.idx = 0\n	}\n")],
 "hash/sha3", '''package sha3_test

import (
	"bytes"
	"testing"

	"github.com/henrydcase/nobs/hash/sha3"
)

func TestDemo(t *testing.T) {
	f := sha3.NewShake128()
	f.Write([]byte("abc"))
	h := sha3.NewShake128()
	h.Read(make([]byte, 168))
	h.Reset()
	h.Write([]byte("abc"))
	a, b := make([]byte, 32), make([]byte, 32)
	f.Read(a)
	h.Read(b)
	if !bytes.Equal(a, b) {
		t.Fatalf("%x %x", a, b)
	}
}
''')
bug("C03-length-32bit", "C03",
 "messages of 512 MiB or more",
 "the SM3 length field holds the bit length modulo 2^32",
 [("hash/sm3/sm3.go", "	store64Be(dc.b[56:], dc.len*8)\n", "	store64Be(dc.b[56:], uint64(uint32(dc.len)<<3))\n")],
 "hash/sm3", '''package sm3_test

import (
	"fmt"
	"testing"

	"github.com/henrydcase/nobs/hash/sm3"
)

func TestDemo(t *testing.T) {
	h := sm3.New()
	b := make([]byte, 1<<20)
	for i := 0; i < 512; i++ {
		h.Write(b)
	}
	h.Write([]byte("abc"))
	if s := fmt.Sprintf("%x", h.Sum(nil)); s != WANT {
		t.Fatal(s)
	}
}

const WANT = "6808a02f0184887a274b97da78b94270cdde94bb0bfffd7d5cd29d532ec4caf4"
''')
bug("C03-nblocks-int16", "C03",
 "one write of more than 4 MiB into an SM3 object",
 "the number of whole blocks of one write is kept in 16 bits, so big writes lose data",
 [("hash/sm3/sm3.go", "	nblocks := int(len(input) / d.BlockSize())\n", "	nblocks := int(uint16(len(input) / d.BlockSize()))\n")],
 "hash/sm3", '''package sm3_test

import (
	"bytes"
	"testing"

	"github.com/henrydcase/nobs/hash/sm3"
)

func TestDemo(t *testing.T) {
	b := make([]byte, 5<<20)
	g, h := sm3.New(), sm3.New()
	g.Write(b)
	for i := 0; i < 5<<10; i++ {
		h.Write(b[:1<<10])
	}
	if !bytes.Equal(g.Sum(nil), h.Sum(nil)) {
		t.Fatal()
	}
}
''')
bug("C04-sum-clobbers", "C04",
 "Sum called with a slice whose spare capacity is larger than the digest",
 "SHA-3 Sum squeezes into all of the slice's capacity and overwrites what the caller keeps there",
 [("hash/sha3/sha3.go", "	in = in[:l+c.Size()]\n", "	sz := l + c.Size()\n	in = in[:cap(in)]\n"),
  ("hash/sha3/sha3.go", "	dup.Read(in[l:])\n	return in\n", "	dup.Read(in[l:])\n	return in[:sz]\n")],
 "hash/sha3", '''package sha3_test

import (
	"testing"

	"github.com/henrydcase/nobs/hash/sha3"
)

func TestDemo(t *testing.T) {
	b := make([]byte, 100)
	sha3.New256().Sum(b[:4])
	for _, v := range b[36:] {
		if v != 0 {
			t.Fatal("memory behind the digest was changed")
		}
	}
}
''')
bug("C04-sum-grow", "C04",
 "Sum with a prefix that has some but not enough spare capacity",
 "the prefix given to SHA-3 Sum is lost when the slice has to be enlarged and had spare capacity already",
 [("hash/sha3/sha3.go", "		in = append(in[:cap(in)], b...)\n", "		in = append(in[:cap(in):cap(in)], b...)\n		if l&7 == 7 {\n			in = append(in[:0:0], make([]byte, l+c.Size())...)\n		}\n")],
 "hash/sha3", "") if 0 else None
bug("C05-counter-carry", "C05",
 "a generator whose counter block has its low eight bytes all ones",
 "the carry of the CTR_DRBG counter stops in the middle of the block",
 [("drbg/ctr_drbg.go", "	for i := BlockLen - 1; i >= 0; i-- {\n", "	for i := BlockLen - 1; i >= BlockLen/2; i-- {\n")],
 "drbg", '''package drbg_test

import (
	"bytes"
	"crypto/aes"
	"testing"

	"github.com/henrydcase/nobs/drbg"
)

func enc(k, v []byte) []byte {
	b, _ := aes.NewCipher(k)
	o := make([]byte, 16)
	b.Encrypt(o, v)
	return o
}

func TestDemo(t *testing.T) {
	// seed material that makes V = 0..0 || ff..ff and key = 0
	seed := make([]byte, 48)
	for i := 0; i < 3; i++ {
		v := make([]byte, 16)
		v[15] = byte(i + 1)
		copy(seed[16*i:], enc(make([]byte, 32), v))
	}
	for i := 40; i < 48; i++ {
		seed[i] ^= 0xff
	}
	d := drbg.NewCtrDrbg()
	d.Init(seed, nil)
	out := make([]byte, 16)
	d.Read(out)
	v := make([]byte, 16)
	v[7] = 1
	if !bytes.Equal(out, enc(make([]byte, 32), v)) {
		t.Fatalf("%x", out)
	}
}
''')
bug("C05-empty-read", "C05",
 "a read of zero bytes between other reads",
 "a request for zero bytes leaves the state as it is instead of updating it, and drops its additional data",
 [("drbg/ctr_drbg.go", "	// TODO: check reseed_counter > reseed_interval\n", "	// TODO: check reseed_counter > reseed_interval\n	if len(out) == 0 {\n		return 0, nil\n	}\n")],
 "drbg", '''package drbg_test

import (
	"bytes"
	"testing"

	"github.com/henrydcase/nobs/drbg"
)

func TestDemo(t *testing.T) {
	var o [2][16]byte
	for i := range o {
		d := drbg.NewCtrDrbg()
		d.Init(make([]byte, 48), nil)
		if i == 1 {
			d.ReadWithAdditionalData(nil, []byte("additional"))
		}
		d.Read(o[i][:])
	}
	if bytes.Equal(o[0][:], o[1][:]) {
		t.Fatal("additional data ignored")
	}
}
''')
bug("C06-pers-truncated", "C06",
 "instantiation with a personalization string longer than the entropy",
 "the personalization string is cut to the length of the entropy",
 [("drbg/ctr_drbg.go", "	lsz = len(personalization)\n	if lsz > SeedLen {\n		lsz = SeedLen\n	}\n", "	// mix in at most as much as there is entropy\n	if lsz > len(personalization) {\n		lsz = len(personalization)\n	}\n")],
 "drbg", '''package drbg_test

import (
	"bytes"
	"testing"

	"github.com/henrydcase/nobs/drbg"
)

func TestDemo(t *testing.T) {
	var o [2][16]byte
	p := make([]byte, 48)
	for i := range o {
		d := drbg.NewCtrDrbg()
		p[40] = byte(i)
		d.Init(make([]byte, 32), p)
		d.Read(o[i][:])
	}
	if bytes.Equal(o[0][:], o[1][:]) {
		t.Fatal("end of personalization ignored")
	}
}
''')
bug("C06-refused-init", "C06",
 "an Init with too little entropy on a generator in use",
 "a refused re-instantiation has already replaced key and counter",
 [("drbg/ctr_drbg.go", "	// Minimum entropy input (SP800-90A, 10.2.1)\n	if len(entropy) < int(c.strength/8) {\n		return false\n	}\n", "	// forget the old state in any case\n	c.v = [BlockLen]byte{}\n\n	// Minimum entropy input (SP800-90A, 10.2.1)\n	if len(entropy) < int(c.strength/8) {\n		return false\n	}\n")],
 "drbg", '''package drbg_test

import (
	"bytes"
	"testing"

	"github.com/henrydcase/nobs/drbg"
)

func TestDemo(t *testing.T) {
	var o [2][16]byte
	for i := range o {
		d := drbg.NewCtrDrbg()
		d.Init(make([]byte, 48), nil)
		if i == 1 && d.Init(make([]byte, 3), nil) {
			t.Fatal("short entropy accepted")
		}
		d.Read(o[i][:])
	}
	if !bytes.Equal(o[0][:], o[1][:]) {
		t.Fatal("refused Init changed the generator")
	}
}
''')
bug("C07-refused-key", "C07",
 "SetKey with a key of unsupported length on a keyed cipher object, then encryption",
 "the portable AES clears its key schedule before it looks at the key length, so a refused SetKey destroys the key in use",
 [("drbg/internal/aes/cipher.go", "	switch k {\n	default:\n		return KeySizeError(k)\n	case 16, 24, 32:\n		break\n	}\n	for i, _ := range c.enc {\n		c.enc[i] = 0\n	}\n", "	for i, _ := range c.enc {\n		c.enc[i] = 0\n	}\n	switch k {\n	default:\n		return KeySizeError(k)\n	case 16, 24, 32:\n		break\n	}\n")],
 "drbg/internal/aes", '''package aes_test

import (
	"bytes"
	"testing"

	"github.com/henrydcase/nobs/drbg/internal/aes"
)

func TestDemo(t *testing.T) {
	c := aes.NewCipher()
	c.SetKey(make([]byte, 32))
	a, b := make([]byte, 16), make([]byte, 16)
	c.Encrypt(a, b)
	if c.SetKey(make([]byte, 20)) == nil {
		t.Fatal("accepted")
	}
	o := make([]byte, 16)
	c.Encrypt(o, b)
	if !bytes.Equal(a, o) {
		t.Fatal("key changed")
	}
}
''')
bug("C07-dec-rounds", "C07",
 "decryption with a 192-bit key in the portable implementation after a 256-bit key was used on the same object",
 "the key length of the first key is kept for decryption, so re-keying to a shorter key breaks Decrypt",
 [("drbg/internal/aes/cipher.go", "	decryptBlockGo(c.dec[:c.keyLen+28], dst, src)\n", "	n := len(c.dec)\n	for n > 44 && c.dec[n-1]|c.dec[n-2]|c.dec[n-3]|c.dec[n-4] == 0 {\n		n -= 8\n	}\n	decryptBlockGo(c.dec[:n], dst, src)\n")],
 "drbg/internal/aes", '''package aes_test

import (
	"bytes"
	stdaes "crypto/aes"
	"testing"

	"github.com/henrydcase/nobs/drbg/internal/aes"
)

func TestDemo(t *testing.T) {
	// the last round key of decryption is the first half of the key
	k := make([]byte, 32)
	for i := 16; i < 32; i++ {
		k[i] = byte(i)
	}
	c := aes.NewCipher()
	c.SetKey(k)
	r, _ := stdaes.NewCipher(k)
	a, b := make([]byte, 16), make([]byte, 16)
	c.Decrypt(a, make([]byte, 16))
	r.Decrypt(b, make([]byte, 16))
	if !bytes.Equal(a, b) {
		t.Fatalf("%x %x", a, b)
	}
}
''')
bug("C08-rdseed-bit", "C08",
 "a processor that has exactly one of ADX and RDSEED",
 "RDSEED is reported from the ADX bit",
 [("utils/cpuid_amd64.go", "	X86.HasRDSEED = bitn(ebx, 18)\n", "	X86.HasRDSEED = bitn(ebx, 19)\n")],
 "utils", "", raw='''#!/bin/bash
# Builds a program whose CPUID is a table (leaf 7: ADX without RDSEED).
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
O=$(mktemp /tmp/demo-overlay.XXXXXX) || exit 3
echo "{\\"Replace\\":{\\"$PWD/utils/cpuid_amd64.s\\":\\"$D/fake.s.txt\\",\\"$PWD/utils/zz_demo_test.go\\":\\"$D/demo_test.go.txt\\"}}" > "$O"
go test -vet=off -count=1 -overlay "$O" -run '^TestDemo$' ./utils
R=$?
rm -f "$O"
exit $R
''', files={"fake.s.txt": FAKE, "demo_test.go.txt": CPUTEST})
bug("C08-max-leaf", "C08",
 "a processor whose highest CPUID leaf is exactly 7",
 "processors whose last leaf is 7 are treated as having no features",
 [("utils/cpuid_amd64.go", "	if max < 7 {\n", "	if max <= 7 {\n")],
 "utils", "", raw='''#!/bin/bash
# Builds a program whose CPUID is a table (highest leaf 7).
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
O=$(mktemp /tmp/demo-overlay.XXXXXX) || exit 3
echo "{\\"Replace\\":{\\"$PWD/utils/cpuid_amd64.s\\":\\"$D/fake.s.txt\\",\\"$PWD/utils/zz_demo_test.go\\":\\"$D/demo_test.go.txt\\"}}" > "$O"
go test -vet=off -count=1 -overlay "$O" -run '^TestDemo$' ./utils
R=$?
rm -f "$O"
exit $R
''', files={"fake.s.txt": FAKE, "demo_test.go.txt": CPUTEST})
