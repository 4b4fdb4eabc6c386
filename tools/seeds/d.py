# C29: how often each block runs is compared by coverage counts of two runs with different secrets
COVER = '''#!/bin/bash
# Run in /repo. Exit 0: property holds in this demonstration.
# The same operation is run with two secrets; every block must run equally often.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/PKG/zz_demo_test.go\\":\\"$D/demo_test.go.txt\\"}}" > "$T/o.json"
R=$PWD
for s in 0 1; do
  ( cd "$R/CWD" && SECRET=$s go test -vet=off -count=1 -timeout 250s -tags noasm -overlay "$T/o.json" -run '^TestDemo$' -covermode=count -coverpkg=COVERPKG -coverprofile="$T/c$s" ./REL ) || exit 4
  sort "$T/c$s" > "$T/s$s"
done
if ! cmp -s "$T/s0" "$T/s1"; then
  echo "FAIL: blocks run differently often with different secrets:"; diff "$T/s0" "$T/s1" | head
  exit 1
fi
exit 0
'''
def cover(pkg, cpkg, mk=False):
    return COVER.replace("PKG/zz", pkg + "/zz").replace("CWD", "kem/mkem" if mk else ".").replace("REL", "" if mk else pkg).replace("COVERPKG", cpkg)
ALL = "github.com/henrydcase/nobs/dh/sidh/...,github.com/henrydcase/nobs/hash/sha3"
def cbug(id, needs, breaks, edits, pkg, demo, cpkg=ALL, mk=False):
    bug(id, "C29", needs, breaks, edits, pkg, demo, raw=cover(pkg, cpkg, mk), files={"demo_test.go.txt": demo})

DECAPS = '''package sidh_test

import (
	"bytes"
	"os"
	"testing"

	"github.com/henrydcase/nobs/dh/sidh"
)

type demoRng struct{ b byte }

func (r *demoRng) Read(p []byte) (int, error) {
	for i := range p {
		r.b = r.b*13 + 7
		p[i] = r.b & 0x7f
	}
	return len(p), nil
}

// decapsulates a ciphertext which is valid, or was tampered with
func TestDemo(t *testing.T) {
	prv, pub := sidh.NewPrivateKey(sidh.Fp503, sidh.KeyVariantSike), sidh.NewPublicKey(sidh.Fp503, sidh.KeyVariantSike)
	if err := prv.Generate(&demoRng{1}); err != nil {
		t.Fatal(err)
	}
	prv.GeneratePublicKey(pub)
	k := sidh.NewSike503(&demoRng{2})
	ct, ss, s2 := make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize()), make([]byte, k.SharedSecretSize())
	if err := k.Encapsulate(ct, ss, pub); err != nil {
		t.Fatal(err)
	}
	bad := os.Getenv("SECRET") == "1"
	if bad {
		ct[len(ct)-1] ^= 1
	}
	if err := k.Decapsulate(s2, prv, pub, ct); err != nil {
		t.Fatal(err)
	}
	if bytes.Equal(ss, s2) == bad {
		t.Fatal("unexpected key")
	}
}
'''
cbug("C29-cpick-branch", "a decapsulation of an accepted and one of a rejected ciphertext, compared by what is executed",
 "the selection between the decrypted message and S branches on the result of the comparison",
 [("dh/sidh/common/utils.go", '''	for i := range out {
		out[i] = (in1[i] & which) | (in2[i] & ^which)
	}''', '''	if which == 0 {
		copy(out, in2[:len(out)])
		return
	}
	for i := range out {
		out[i] = in1[i]
	}''')], "dh/sidh", DECAPS)
KEYS = '''package sidh_test

import (
	"os"
	"testing"

	"github.com/henrydcase/nobs/dh/sidh"
)

// public key and shared secret of two private keys
func TestDemo(t *testing.T) {
	var v, w sidh.KeyVariant = sidh.KeyVariantSIDE, sidh.KeyVariantOTHER
	prv, pub := sidh.NewPrivateKey(sidh.FpXXX, v), sidh.NewPublicKey(sidh.FpXXX, v)
	oprv, opub := sidh.NewPrivateKey(sidh.FpXXX, w), sidh.NewPublicKey(sidh.FpXXX, w)
	k := make([]byte, prv.Size())
	for i := range k {
		k[i] = byte(i * 37) & 0x01
		if os.Getenv("SECRET") == "1" {
			KEYLINE
		}
	}
	o := make([]byte, oprv.Size())
	for i := range o {
		o[i] = byte(i) & 1
	}
	if prv.Import(k) != nil || oprv.Import(o) != nil {
		t.Fatal("import")
	}
	oprv.GeneratePublicKey(opub)
	prv.GeneratePublicKey(pub)
	ss := make([]byte, prv.SharedSecretSize())
	prv.DeriveSecret(ss, opub)
}
'''
def keys(side, set, line):
    return KEYS.replace("KeyVariantSIDE", "KeyVariantSidh" + side).replace("KeyVariantOTHER", "KeyVariantSidh" + ("B" if side == "A" else "A")).replace("FpXXX", "Fp%d" % set).replace("KEYLINE", line)
cbug("C29-ladder-branch", "two private keys of one field, compared by what is executed",
 "the three point ladder of p434 branches on the bits of the private key: the swap is skipped when two neighbouring bits are equal",
 [("dh/sidh/internal/p434/curve.go", '''		swap := prevBit ^ bit
		prevBit = bit
		cswap(&R1.X, &R1.Z, &R2.X, &R2.Z, swap)
''', '''		if prevBit != bit {
			cswap(&R1.X, &R1.Z, &R2.X, &R2.Z, 1)
		}
		prevBit = bit
''')], "dh/sidh", keys("A", 434, "k[i] = byte(i*5) & 0x03"))
cbug("C29-ladder-leading-zeros", "a private key whose top byte is zero",
 "the ladder of p751 leaves out the leading zero bytes of the private key",
 [("dh/sidh/internal/p751/curve.go", '''	// Iterate over the bits of the scalar, bottom to top
''', '''	// Leading zeros contribute nothing
	for nbits > 16 && scalar[(nbits-1)>>3] == 0 {
		nbits = (nbits - 1) &^ 7
	}

	// Iterate over the bits of the scalar, bottom to top
''')], "dh/sidh", keys("B", 751, "if i+1 == len(k) { k[i] = 0 } else { k[i] = 1 }").replace("byte(i * 37) & 0x01", "1").replace("var v, w", "_ = os.Args\n\tvar v, w"))
cbug("C29-sub-branch", "operands of a field subtraction that do and don't borrow",
 "the portable subtraction of p503 branches on the borrow",
 [("dh/sidh/internal/p503/arith_generic.go", '''	mask := uint64(0 - borrow)
	borrow = 0

	for i := 0; i < FpWords; i++ {
		z[i], borrow = bits.Add64(z[i], P503x2[i]&mask, borrow)
	}''', '''	if borrow == 0 {
		return
	}
	borrow = 0

	for i := 0; i < FpWords; i++ {
		z[i], borrow = bits.Add64(z[i], P503x2[i], borrow)
	}''')], "dh/sidh", keys("A", 503, "k[i] = byte(i*5) & 0x03"))
MDEC = '''package mkem

import (
	"bytes"
	"os"
	"testing"

	"github.com/henrydcase/nobs/dh/sidh"
)

type demoRng struct{ b byte }

func (r *demoRng) Read(p []byte) (int, error) {
	for i := range p {
		r.b = r.b*13 + 7
		p[i] = r.b & 0x7f
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	prv, pub := sidh.NewPrivateKey(sidh.Fp434, sidh.KeyVariantSike), sidh.NewPublicKey(sidh.Fp434, sidh.KeyVariantSike)
	if err := prv.Generate(&demoRng{1}); err != nil {
		t.Fatal(err)
	}
	prv.GeneratePublicKey(pub)
	var k MultiKEM
	k.Allocate(sidh.Fp434, 1, &demoRng{2})
	ss, s2 := make([]byte, k.SharedSecretSize()), make([]byte, k.SharedSecretSize())
	if err := k.Encapsulate(ss, []*sidh.PublicKey{pub}); err != nil {
		t.Fatal(err)
	}
	ct := append([]byte{}, k.cts[0][:k.SharedSecretSize()]...)
	bad := os.Getenv("SECRET") == "1"
	if bad {
		ct[3] ^= 1
	}
	if err := k.Decapsulate(s2, prv, pub, ct); err != nil {
		t.Fatal(err)
	}
	if bytes.Equal(ss, s2) == bad {
		t.Fatal("unexpected key")
	}
}
'''
MALL = "mkem,github.com/henrydcase/nobs/dh/sidh/...,github.com/henrydcase/nobs/hash/sha3"
cbug("C29-multi-early-reject", "a multi-recipient decapsulation that is rejected because the ephemeral key does not match",
 "the re-encryption stops as soon as the ephemeral key is known to be wrong: the rejection of a tampered ciphertext takes half the work",
 [("kem/mkem/sike.go", '''	skA.DeriveSecret(c.j[:], pub)
	c.shake.Reset()
	// H(j)
	_, _ = c.shake.Write(G2)
	_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
	_, _ = c.shake.Read(cti[:skA.Params.MsgLen])
	for i := 0; i < skA.Params.MsgLen; i++ {
		cti[i] ^= m[i]
	}
''', '''	if subtle.ConstantTimeCompare(r[:c.params.PublicKeySize], c.ct0[:c.params.PublicKeySize]) == 1 {
		skA.DeriveSecret(c.j[:], pub)
		c.shake.Reset()
		// H(j)
		_, _ = c.shake.Write(G2)
		_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
		_, _ = c.shake.Read(cti[:skA.Params.MsgLen])
		for i := 0; i < skA.Params.MsgLen; i++ {
			cti[i] ^= m[i]
		}
	}
''')], "kem/mkem", MDEC, MALL, True)
cbug("C29-compare-early", "decapsulations in which the ephemeral keys first differ at different positions",
 "the comparison of the re-encrypted ephemeral key in the multi-recipient package's SIKE stops at the first difference",
 [("kem/mkem/sike.go", '''	mask := subtle.ConstantTimeCompare(pkBytes[:c.params.PublicKeySize], ciphertext[:pub.Params.PublicKeySize])
''', '''	mask := 1
	for i := range pkBytes[:c.params.PublicKeySize] {
		if pkBytes[i] != ciphertext[i] {
			mask = 0
			break
		}
	}
''')], "kem/mkem", DECAPS.replace("package sidh_test", "package mkem").replace("sidh.NewSike503", "NewSike503"), MALL, True)
cbug("C29-csidh-equal", "two field elements whose first different limbs differ",
 "the comparison of CSIDH field elements, declared constant time, stops at the first different limb",
 [("dh/csidh/fp511.go", '''	var r uint64
	for i := range v {
		r |= v[i] ^ in[i]
	}
	return ctIsNonZero64(r) == 0''', '''	for i := range v {
		if v[i] != in[i] {
			return false
		}
	}
	return true''')], "dh/csidh", '''package csidh

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := fp{1, 2, 3, 4, 5, 6, 7, 8}, fp{1, 2, 3, 4, 5, 6, 7, 9}
	if os.Getenv("SECRET") == "1" {
		b = fp{0, 2, 3, 4, 5, 6, 7, 8}
	}
	if a.equal(&b) {
		t.Fatal("equal")
	}
}
''', "github.com/henrydcase/nobs/dh/csidh")
