exec(open(ROOT + "/tools/seeds/e.py").read().split('\nbug("')[0])

bug("C11-valid-cache", "C11",
 "validate a public key, import an invalid encoding into the same object, validate again",
 "a key object remembers that it was found valid, also when another key is imported into it",
 [("dh/csidh/csidh.go", "	a fp\n}\n\n// Defines operations on private key", "	a fp\n	// set when the key was found valid\n	valid bool\n}\n\n// Defines operations on private key"),
  ("dh/csidh/csidh.go", "	// Check if in range\n	if !isLess(&pub.a, &p) {", "	if pub.valid {\n		return true\n	}\n\n	// Check if in range\n	if !isLess(&pub.a, &p) {"),
  ("dh/csidh/csidh.go", "		if done {\n			return res\n		}", "		if done {\n			pub.valid = res\n			return res\n		}")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	var p csidh.PublicKey
	b := make([]byte, 64)
	p.Import(b)
	if !csidh.Validate(&p, rand.Reader) {
		t.Fatal("base curve")
	}
	b[0] = 5
	p.Import(b)
	if csidh.Validate(&p, rand.Reader) {
		t.Fatal("invalid key accepted")
	}
}
''')

bug("C12-import-or", "C12",
 "import into a public key object which has a key already",
 "the previous coefficient isn't cleared before the bytes are added with OR",
 [("dh/csidh/csidh.go", "	c.a = fp{}\n	for i := 0; i < len(key); i++ {", "	for i := 0; i < len(key); i++ {")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	var p csidh.PublicKey
	b, c := make([]byte, 64), make([]byte, 64)
	b[3], c[3] = 1, 2
	p.Import(b)
	p.Import(c)
	out := make([]byte, 64)
	p.Export(out)
	if !bytes.Equal(out, c) {
		t.Fatal("other key exported than imported")
	}
}
''')

bug("C13-last-nonzero", "C13",
 "a zero byte drawn for the exponent of the last prime",
 "the exponent of the last prime is never zero",
 [("dh/csidh/csidh.go", "			if int8(key.wbuf[j]) <= expMax && int8(key.wbuf[j]) >= -expMax {", "			if int8(key.wbuf[j]) <= expMax && int8(key.wbuf[j]) >= -expMax && (i != len(primes)-1 || key.wbuf[j] != 0) {")],
 "dh/csidh", CS + '''type zeros struct{ n int }

func (z *zeros) Read(b []byte) (int, error) {
	z.n++
	if z.n > 1 {
		return rand.Read(b)
	}
	for i := range b {
		b[i] = 0
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	for i := 0; i < 2000; i++ {
		var k csidh.PrivateKey
		csidh.GeneratePrivateKey(&k, rand.Reader)
		b := make([]byte, 37)
		k.Export(b)
		if b[36]>>4 == 0 {
			return
		}
	}
	t.Fatal("last exponent is never zero")
}
''')

ISA = '''#!/bin/bash
# Run in /repo. Exit 0: property holds in this demonstration.
# ADCX and ADOX note their use; a processor with BMI2 and without ADX must not meet them.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
P="$PWD/dh/sidh/internal/PKG"
( grep '^// +build' "$P/arith_amd64.s"; echo; printf '#define zzADCXQ MOVB $1, ·zzADX(SB); ADCXQ\\n#define zzADOXQ MOVB $1, ·zzADX(SB); ADOXQ\\n'
  sed -E 's/\\b(ADCXQ|ADOXQ)\\b/zz\\1/g' "$P/arith_amd64.s" ) > "$T/arith_amd64.s"
printf 'package PKG\\n\\nvar zzADX byte\\n' > "$T/zz.go"
echo "{\\"Replace\\":{\\"$P/arith_amd64.s\\":\\"$T/arith_amd64.s\\",\\"$P/zz_adx.go\\":\\"$T/zz.go\\",\\"$P/zz_demo_test.go\\":\\"$D/demo_test.go.txt\\"}}" > "$T/o.json"
go test -vet=off -count=1 -overlay "$T/o.json" -run '^TestDemo$' ./dh/sidh/internal/PKG
'''
def isa(pkg, ops):
    return ISA.replace("PKG", pkg), {"demo_test.go.txt": '''package %s

import (
	"testing"

	"github.com/henrydcase/nobs/dh/sidh/common"
	"golang.org/x/sys/cpu"
)

func TestDemo(t *testing.T) {
	if !cpu.X86.HasBMI2 || !cpu.X86.HasADX {
		t.Skip("nothing to see on this processor")
	}
	HasBMI2, HasADXandBMI2 = true, false
	var a, b common.Fp
	var c common.FpX2
	%s
	if zzADX != 0 {
		t.Fatal("FAIL: instructions of ADX used without ADX")
	}
}
''' % (pkg, ops)}
raw, files = isa("p503", "mulP503(&c, &a, &b)\n\trdcP503(&a, &c)")
bug("C08-wrong-flag", "C08",
 "a processor with BMI2 and without ADX",
 "the reduction of p503 takes the path with ADCX/ADOX when the processor has BMI2 only",
 [("dh/sidh/internal/p503/arith_amd64.s", "	CMPB    ·HasADXandBMI2(SB), $1\n	JE      redc_with_mulx_adcx_adox\n	CMPB    ·HasBMI2(SB), $1\n	JE      redc_with_mulx\n", "	CMPB    ·HasBMI2(SB), $1\n	JE      redc_with_mulx_adcx_adox\n")],
 "dh/sidh/internal/p503", files["demo_test.go.txt"], raw=raw, files=files)

bug("C08-always-aes", "C08",
 "an amd64 processor without AES instructions",
 "the generator picks the assembly implementation for the architecture, not for what the processor reports",
 [("drbg/ctr_drbg.go", "	if utils.X86.HasAES {\n", "	if utils.X86.HasAES || runtime.GOARCH == \"amd64\" {\n"),
  ("drbg/ctr_drbg.go", "import (\n", "import (\n	\"runtime\"\n\n")],
 "drbg", '''package drbg

import (
	"testing"

	"github.com/henrydcase/nobs/drbg/internal/aes"
	"github.com/henrydcase/nobs/utils"
)

func TestDemo(t *testing.T) {
	utils.X86.HasAES = false
	if _, ok := NewCtrDrbg().blockEnc.(*aes.AESAsm); ok {
		t.Fatal("assembly with AES instructions chosen without AES")
	}
}
''')

bug("C02-long-read", "C02",
 "one request for more than 65535 blocks of output",
 "the number of blocks of a request is kept in 16 bits",
 [("hash/sha3/sha3.go", "	nblocks := len(out) / rate\n	for nblocks > 0 {", "	nblocks := uint16(len(out) / rate)\n	for nblocks > 0 {")],
 "hash/sha3", '''package sha3_test

import (
	"bytes"
	"testing"

	"github.com/henrydcase/nobs/hash/sha3"
)

func TestDemo(t *testing.T) {
	n := 168 * 65540
	a, b := make([]byte, n), make([]byte, n)
	h, g := sha3.NewShake128(), sha3.NewShake128()
	h.Read(a)
	g.Read(b[:n/2])
	g.Read(b[n/2:])
	if !bytes.Equal(a, b) {
		t.Fatal("output depends on how it is read")
	}
}
''')

bug("C03-stale-tail", "C03",
 "a message longer than a block whose length is 56..62 modulo 64",
 "the padding clears the buffer up to the length field only, so old bytes stay in the last bytes of the extra block",
 [("hash/sm3/sm3.go", "	for i := idx + 1; i < len(dc.b); i++ {\n		dc.b[i] = 0\n	}", "	for i := idx + 1; i < len(dc.b)-8; i++ {\n		dc.b[i] = 0\n	}")],
 "hash/sm3", '''package sm3

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	z := append(bytes.Repeat([]byte{0xff}, 64), make([]byte, 64+57)...)
	a := New()
	a.Write(z)
	c := New()
	c.Write(z[:100])
	c.Write(z[100:])
	if !bytes.Equal(a.Sum(nil), c.Sum(nil)) {
		t.Fatal("digest depends on the split")
	}
}
''')

bug("C05-long-ad", "C05",
 "additional data of more than 48 bytes",
 "additional data that doesn't fit is left out of the first update",
 [("drbg/ctr_drbg.go", "		copy(seedBuf[:], ad)\n		c.update(seedBuf[:])\n", "		if copy(seedBuf[:], ad) == len(ad) {\n			c.update(seedBuf[:])\n		}\n")],
 "drbg", '''package drbg

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var seed [48]byte
	ad := bytes.Repeat([]byte{7}, 60)
	out := [2][]byte{make([]byte, 16), make([]byte, 16)}
	for i, n := range []int{48, 60} {
		c := NewCtrDrbg()
		c.Init(seed[:], nil)
		c.ReadWithAdditionalData(out[i], ad[:n])
	}
	if !bytes.Equal(out[0], out[1]) {
		t.Fatal("long additional data not used like its first 48 bytes")
	}
}
''')

bug("C30-csidh-precomp", "C30",
 "two goroutines doing CSIDH at the same time",
 "the table of powers of the exponentiation is one package variable, to avoid clearing it each time",
 [("dh/csidh/fp511.go", "	var precomp [16]fp\n	var t fp\n	var c uint64\n\n	// Precompute step", "	var t fp\n	var c uint64\n\n	// Precompute step"),
  ("dh/csidh/fp511.go", "func mulGeneric(", "// powers of the base of an exponentiation\nvar precomp [16]fp\n\nfunc mulGeneric(")],
 "dh/csidh", CS + '''func TestDemo(t *testing.T) {
	var k csidh.PrivateKey
	var p csidh.PublicKey
	csidh.GeneratePrivateKey(&k, rand.Reader)
	csidh.GeneratePublicKey(&p, &k, rand.Reader)
	want, kb := make([]byte, 64), make([]byte, 37)
	p.Export(want)
	k.Export(kb)
	res := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			var k csidh.PrivateKey
			var p csidh.PublicKey
			k.Import(kb)
			csidh.GeneratePublicKey(&p, &k, rand.Reader)
			got := make([]byte, 64)
			p.Export(got)
			res <- bytes.Equal(got, want)
		}()
	}
	ok := true
	for i := 0; i < 4; i++ {
		ok = <-res && ok
	}
	if !ok {
		t.Fatal("other public key when computed in parallel")
	}
}
''', env="GOMAXPROCS=4 timeout 200 ")

bug("C32-long-secret", "C32",
 "decapsulation for one of many recipients with a buffer longer than the key",
 "the whole buffer is filled, not only the documented size",
 [("kem/mkem/sike.go", "	_, _ = c.shake.Write(m[:c.params.MsgLen])\n	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])", "	_, _ = c.shake.Write(m[:c.params.MsgLen])\n	_, _ = c.shake.Read(secret)")],
 "kem/mkem", MK + '''func TestDemo(t *testing.T) {
	k, p := kp(t)
	var m MultiKEM
	m.Allocate(sidh.Fp503, 1, rand.Reader)
	s, s2 := make([]byte, 24), make([]byte, 40)
	if err := m.Encapsulate(s, []*sidh.PublicKey{p}); err != nil {
		t.Fatal(err)
	}
	if err := m.Decapsulate(s2, k, p, m.cts[0][:24]); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(s, s2[:24]) || !bytes.Equal(s2[24:], make([]byte, 16)) {
		t.Fatal("written behind the key")
	}
}
''')

bug("C33-shared-params", "C33",
 "a caller that changes the parameters it was given",
 "every caller gets a pointer to the one entry of the table",
 [("dh/sidh/common/params.go", "var sidhParams = make(map[uint8]SidhParams)", "var sidhParams = make(map[uint8]*SidhParams)"),
  ("dh/sidh/common/params.go", "		return &val\n", "		return val\n"),
  ("dh/sidh/common/params.go", "	sidhParams[id] = *p\n", "	sidhParams[id] = p\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	p := common.Params(Fp503)
	old := p.PublicKeySize
	p.PublicKeySize = 1
	if common.Params(Fp503).PublicKeySize != old {
		t.Fatal("table changed by a caller")
	}
}
''')

bug("C22-zero-msg-redraw", "C22",
 "a random source that starts with a message of zeros",
 "a message of zeros is taken for a broken random source and drawn again",
 [("dh/sidh/sike.go", "	_, err := io.ReadFull(c.rng, c.msg[:])\n	if err != nil {\n		return err\n	}\n", "	for z := byte(0); z == 0; {\n		if _, err := io.ReadFull(c.rng, c.msg[:]); err != nil {\n			return err\n		}\n		for _, v := range c.msg {\n			z |= v\n		}\n	}\n")],
 "dh/sidh", SD + '''type zrng struct{ n int }

func (z *zrng) Read(b []byte) (int, error) {
	z.n += len(b)
	for i := range b {
		b[i] = 0
		if z.n > 24 {
			b[i] = 1
		}
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	_, k, p := pair(t)
	_ = k
	z := &zrng{}
	kem := NewSike503(z)
	ct, s := make([]byte, kem.CiphertextSize()), make([]byte, kem.SharedSecretSize())
	if err := kem.Encapsulate(ct, s, p); err != nil {
		t.Fatal(err)
	}
	if z.n != 24 {
		t.Fatal("the message isn't the first random string")
	}
}
''')

bug("C21-realloc", "C21",
 "a KEM object allocated again for a smaller field",
 "buffers of the previous allocation are kept when they are long enough",
 [("dh/sidh/sike.go", "	c.secretBytes = make([]byte, c.params.A.SecretByteLen)\n", "	if n := int(c.params.A.SecretByteLen); len(c.secretBytes) < n {\n		c.secretBytes = make([]byte, n)\n	}\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	_, k, p := pair(t)
	kem := NewSike751(rand.Reader)
	kem.Allocate(Fp503, rand.Reader)
	ct, s, s2 := make([]byte, kem.CiphertextSize()), make([]byte, kem.SharedSecretSize()), make([]byte, kem.SharedSecretSize())
	if err := kem.Encapsulate(ct, s, p); err != nil {
		t.Fatal(err)
	}
	if err := kem.Decapsulate(s2, k, p, ct); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(s, s2) {
		t.Fatal("other key decapsulated")
	}
}
''')

bug("C23-s-prefix", "C23",
 "a modified ciphertext with p503 or p751 and two private keys whose S differ behind byte 16 only",
 "the rejection value is built from the first 16 bytes of S",
 [("dh/sidh/sike.go", "	common.Cpick(mask, m[:c1Len], m[:c1Len], prv.S)\n", "	var s [common.MaxMsgBsz]byte\n	copy(s[:16], prv.S)\n	common.Cpick(mask, m[:c1Len], m[:c1Len], s[:c1Len])\n")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	kem, k, p := pair(t)
	ct, s := make([]byte, kem.CiphertextSize()), make([]byte, kem.SharedSecretSize())
	if err := kem.Encapsulate(ct, s, p); err != nil {
		t.Fatal(err)
	}
	ct[len(ct)-1] ^= 1
	s2 := make([]byte, len(s))
	kem.Decapsulate(s, k, p, ct)
	k.S[23] ^= 1
	kem.Decapsulate(s2, k, p, ct)
	if bytes.Equal(s, s2) {
		t.Fatal("the rejection doesn't depend on all of S")
	}
}
''')

bug("C01-bytepad-exact", "C01",
 "a cSHAKE name and customization whose encoding fills blocks exactly",
 "a block of zeros is added when no padding is needed",
 [("hash/sha3/shake.go", "	if padlen := w - (len(buf) % w); padlen < w {\n		buf = append(buf, make([]byte, padlen)...)\n	}", "	buf = append(buf, make([]byte, w-(len(buf)%w))...)")],
 "hash/sha3", '''package sha3

import "testing"

func TestDemo(t *testing.T) {
	if n := len(bytepad(make([]byte, 166), 168)); n != 168 {
		t.Fatal("padded to", n)
	}
}
''')

exec(open(ROOT + "/tools/seeds/d.py").read().split('cbug("')[0])
cbug("C29-xor-skip", "two private keys of one SIKE key pair, compared by what is executed inside the hash",
 "words of zeros are skipped when input is added to the state",
 [("hash/sha3/xor_unaligned.go", "		d.a[0] ^= bw[0]\n", "		if bw[0] != 0 {\n			d.a[0] ^= bw[0]\n		}\n")],
 "hash/sha3", '''package sha3

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	h := NewShake256()
	m := make([]byte, 24)
	if os.Getenv("SECRET") == "1" {
		m[0] = 1
	}
	h.Write(m)
	h.Read(m)
}
''')

bug("C15-public-overwritten", "C15",
 "two private keys deriving with one and the same public key object",
 "to save a copy, the points of the public key are overwritten while a secret is derived",
 [("dh/sidh/sidh.go", "			p751.DeriveSecretB(ss, prv.Scalar, &pub.affine3Pt)", "			p751.DeriveSecretB(ss, prv.Scalar, &pub.affine3Pt)\n			pub.affine3Pt[2] = pub.affine3Pt[1]")],
 "dh/sidh", SD + '''func TestDemo(t *testing.T) {
	a, pa := NewPrivateKey(Fp751, KeyVariantSidhA), NewPublicKey(Fp751, KeyVariantSidhA)
	b := NewPrivateKey(Fp751, KeyVariantSidhB)
	a.Generate(rand.Reader)
	b.Generate(rand.Reader)
	a.GeneratePublicKey(pa)
	s, s2 := make([]byte, b.SharedSecretSize()), make([]byte, b.SharedSecretSize())
	b.DeriveSecret(s, pa)
	b.DeriveSecret(s2, pa)
	if !bytes.Equal(s, s2) {
		t.Fatal("the second derivation gives another secret")
	}
}
''')

bug("C18-fill-before-fail", "C18",
 "a random source failing while a SIKE key with content is generated anew",
 "on failure of the random source the error is reported only if nothing was read",
 [("dh/sidh/sidh.go", "	if _, err := io.ReadFull(rand, prv.Scalar); err != nil {\n		return err\n	}", "	if n, err := io.ReadFull(rand, prv.Scalar); err != nil && n < len(prv.Scalar)-1 {\n		return err\n	}")],
 "dh/sidh", SD + '''type lim struct{ n int }

func (l *lim) Read(b []byte) (int, error) {
	if l.n == 0 {
		return 0, errors.New("no more")
	}
	if len(b) > l.n {
		b = b[:l.n]
	}
	l.n -= len(b)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	k := NewPrivateKey(Fp434, KeyVariantSidhA)
	if k.Generate(&lim{k.Size() - 1}) == nil {
		t.Fatal("failure of the random source not reported")
	}
}
''')
