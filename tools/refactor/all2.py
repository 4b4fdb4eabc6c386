#!/usr/bin/env python3
"""A second set of behaviour-preserving rewrites, in another style than all.py (development tool)."""
import re, sys
R = sys.argv[1]; only = sys.argv[2:]
E = []
def ed(g, f, old, new): E.append((g, f, old, new))
def fn(g, f, head, new):
    """replaces the whole function that starts with head"""
    E.append((g, f, ("fn", head), new))

F = "hash/sha3/sha3.go"
fn("sha3", F, "func (c *state) Write(in []byte)", '''func (c *state) Write(in []byte) (nwrite int, err error) {
	if c.isSquezing {
		err = ErrWriteAfterRead
		return
	}
	buf := c.data.asBytes()[:c.desc.r]
	for nwrite < len(in) {
		k := copy(buf[c.idx:], in[nwrite:])
		nwrite += k
		if c.idx += k; c.idx == len(buf) {
			c.idx = 0
			xorIn(c, buf)
			keccakF1600(&c.a)
		}
	}
	return nwrite, nil
}
''')
fn("sha3", F, "func (c *state) Read(out []byte)", '''func (c *state) Read(out []byte) (nread int, err error) {
	if !c.isSquezing {
		c.finalize_sha3()
	}
	rate := c.BlockSize()
	buf := c.data.asBytes()[:rate]
	for nread = 0; nread < len(out); {
		if c.idx == 0 {
			keccakF1600(&c.a)
			copyOut(c, buf)
			c.idx = rate
		}
		k := copy(out[nread:], buf[rate-c.idx:])
		c.idx -= k
		nread += k
	}
	return
}
''')
fn("sha3", F, "func (c *state) Sum(in []byte)", '''func (c *state) Sum(in []byte) []byte {
	dup := *c
	digest := make([]byte, dup.Size())
	dup.Read(digest)
	return append(in, digest...)
}
''')
F = "hash/sm3/sm3.go"
fn("sm3", F, "func (d *digest) Write(input []byte)", '''func (d *digest) Write(input []byte) (nn int, err error) {
	pos := int(d.len % uint64(BlockSize))
	d.len += uint64(len(input))
	for nn < len(input) {
		if pos == 0 && len(input)-nn >= BlockSize {
			blocks := (len(input) - nn) / BlockSize
			d.compress(input[nn:], blocks)
			nn += blocks * BlockSize
			continue
		}
		k := copy(d.b[pos:], input[nn:])
		nn += k
		pos += k
		if pos == BlockSize {
			d.compress(d.b[:], 1)
			pos = 0
		}
	}
	return
}
''')
F = "drbg/ctr_drbg.go"
fn("drbg", F, "func (c *CtrDrbg) inc()", '''func (c *CtrDrbg) inc() {
	carry := uint16(1)
	for i := range c.v {
		j := len(c.v) - 1 - i
		carry += uint16(c.v[j])
		c.v[j] = byte(carry)
		carry >>= 8
	}
}
''')
fn("drbg", F, "func (c *CtrDrbg) ReadWithAdditionalData(", '''func (c *CtrDrbg) ReadWithAdditionalData(out, ad []byte) (n int, err error) {
	var seedBuf [SeedLen]byte

	if len(ad) != 0 {
		copy(seedBuf[:], ad)
		c.update(seedBuf[:])
	}
	c.blockEnc.SetKey(c.key[:])
	for n < len(out) {
		c.inc()
		c.blockEnc.Encrypt(c.tmpBlk[:BlockLen], c.v[:])
		n += copy(out[n:], c.tmpBlk[:BlockLen])
	}
	c.update(seedBuf[:])
	c.counter++
	return n, nil
}
''')
fn("drbg", F, "func (c *CtrDrbg) update(data []byte)", '''func (c *CtrDrbg) update(data []byte) {
	if len(data) != SeedLen {
		panic("Provided data is not equal to strength/8")
	}
	var next [SeedLen]byte
	c.blockEnc.SetKey(c.key[:])
	for rest := next[:]; len(rest) > 0; rest = rest[BlockLen:] {
		c.inc()
		c.blockEnc.Encrypt(rest, c.v[:])
	}
	for i, x := range data {
		next[i] ^= x
	}
	copy(c.v[:], next[copy(c.key[:], next[:]):])
}
''')
F = "dh/csidh/csidh.go"
ed("csidh", F, 'import (\n	"io"\n)', 'import (\n	"encoding/binary"\n	"io"\n)')
fn("csidh", F, "func (s *fpRngGen) randFp(", '''func (s *fpRngGen) randFp(v *fp, rng io.Reader) {
	for ok := false; !ok; ok = isLess(v, &p) {
		if _, err := io.ReadFull(rng, s.wbuf[:]); err != nil {
			panic("Can't read random number")
		}
		for i := range v {
			v[i] = binary.LittleEndian.Uint64(s.wbuf[i*limbByteSize:])
		}
		v[numWords-1] &= 1<<(pbits%limbBitSize) - 1
	}
}
''')
fn("csidh", F, "func Validate(pub *PublicKey", '''func Validate(pub *PublicKey, rng io.Reader) bool {
	singular := pub.a.equal(&twoNeg) || pub.a.equal(&two)
	if singular || !isLess(&pub.a, &p) {
		return false
	}
	for {
		if done, res := pub.tryPoint(rng); done {
			return res
		}
	}
}

// tryPoint looks for a point of big order
func (c *PublicKey) tryPoint(rng io.Reader) (done, supersingular bool) {
	P := point{z: one}
	c.randFp(&P.x, rng)
	A := point{x: c.a, z: one}
	for i := 0; i < 2; i++ {
		xDbl(&P, &P, &A)
	}
	order := fp{1}
	return cofactorMul(&P, &coeff{a: c.a, c: one}, 0, len(primes), &order)
}
''')
fn("csidh", F, "func GeneratePrivateKey(key *PrivateKey", '''func GeneratePrivateKey(key *PrivateKey, rng io.Reader) error {
	var e [PrivateKeySize]int8
	n := 0
	for n < len(primes) {
		if _, err := io.ReadFull(rng, key.wbuf[:]); err != nil {
			key.e = e
			return err
		}
		for _, b := range key.wbuf {
			if v := int8(b); n < len(primes) && -expMax <= v && v <= expMax {
				if n%2 == 0 {
					e[n/2] = int8(b & 0xF)
				} else {
					e[n/2] |= int8(b << 4)
				}
				n++
			}
		}
	}
	key.e = e
	return nil
}
''')
fn("csidh", F, "func (c *PublicKey) Import(key []byte)", '''func (c *PublicKey) Import(key []byte) bool {
	ok := len(key) == numWords*limbByteSize
	if ok {
		for i := range c.a {
			c.a[i] = binary.LittleEndian.Uint64(key[i*limbByteSize:])
		}
	}
	return ok
}
''')
fn("csidh", F, "func DeriveSecret(out *[64]byte", '''func DeriveSecret(out *[64]byte, pub *PublicKey, prv *PrivateKey, rng io.Reader) (ok bool) {
	if ok = Validate(pub, rng); ok {
		shared := PublicKey{a: pub.a}
		groupAction(&shared, prv, rng)
		ok = shared.Export(out[:])
	}
	return
}
''')
F = "dh/csidh/curve.go"
fn("csidh", F, "func montEval(res, A, x *fp)", '''func montEval(res, A, x *fp) {
	var t fp
	// x*(x*(x+A) + 1)
	addRdc(&t, x, A)
	mulRdc(&t, &t, x)
	addRdc(&t, &t, &one)
	mulRdc(res, &t, x)
}
''')

F = "dh/sidh/sidh.go"
ed("sidh", F, "// Accessor to key variant.\n", '''// operations of one field
type field struct {
	to, from   func(out, in *common.Fp2)
	genA, genB func(pub *[3]common.Fp2, prv []byte)
	ssA, ssB   func(ss, prv []byte, pub *[3]common.Fp2)
}

var fields = map[uint8]*field{
	Fp434: {p434.ToMontgomery, p434.FromMontgomery, p434.PublicKeyGenA, p434.PublicKeyGenB, p434.DeriveSecretA, p434.DeriveSecretB},
	Fp503: {p503.ToMontgomery, p503.FromMontgomery, p503.PublicKeyGenA, p503.PublicKeyGenB, p503.DeriveSecretA, p503.DeriveSecretB},
	Fp751: {p751.ToMontgomery, p751.FromMontgomery, p751.PublicKeyGenA, p751.PublicKeyGenB, p751.DeriveSecretA, p751.DeriveSecretB},
}

func (key *Key) field() *field {
	f, ok := fields[key.Params.ID]
	if !ok {
		panic("Unsupported key")
	}
	return f
}

func (key *Key) isA() bool { return key.KeyVariant&KeyVariantSidhA != 0 }

// Accessor to key variant.
''')
fn("sidh", F, "func (pub *PublicKey) Import(", '''func (pub *PublicKey) Import(input []byte) error {
	if len(input) != pub.Size() {
		return errors.New("sidh: input to short")
	}
	f, n := pub.field(), pub.Params.SharedSecretSize
	var pts [3]common.Fp2
	for i := range pts {
		common.BytesToFp2(&pts[i], input[i*n:(i+1)*n], pub.Params.Bytelen)
		f.to(&pts[i], &pts[i])
	}
	pub.affine3Pt = pts
	return nil
}
''')
fn("sidh", F, "func (pub *PublicKey) Export(", '''func (pub *PublicKey) Export(out []byte) {
	f, n := pub.field(), pub.Params.SharedSecretSize
	var plain [3]common.Fp2
	for i := range plain {
		f.from(&plain[i], &pub.affine3Pt[i])
	}
	for i := len(plain) - 1; i >= 0; i-- {
		common.Fp2ToBytes(out[i*n:(i+1)*n], &plain[i], pub.Params.Bytelen)
	}
}
''')
fn("sidh", F, "func (prv *PrivateKey) GeneratePublicKey(", '''func (prv *PrivateKey) GeneratePublicKey(pub *PublicKey) {
	if (pub.KeyVariant != prv.KeyVariant) || (pub.Params.ID != prv.Params.ID) {
		panic("sidh: incompatbile public key")
	}
	gen := prv.field().genB
	if prv.isA() {
		gen = prv.field().genA
	}
	gen(&pub.affine3Pt, prv.Scalar)
}
''')
fn("sidh", F, "func (prv *PrivateKey) DeriveSecret(", '''func (prv *PrivateKey) DeriveSecret(ss []byte, pub *PublicKey) {
	if (pub.KeyVariant == prv.KeyVariant) || (pub.Params.ID != prv.Params.ID) {
		panic("sidh: public and private are incompatbile")
	}
	derive, pts := prv.field().ssB, pub.affine3Pt
	if prv.isA() {
		derive = prv.field().ssA
	}
	derive(ss, prv.Scalar, &pts)
}
''')
for F, q in (("dh/sidh/sike.go", ""), ("kem/mkem/sike.go", "sidh.")):
    g = "sike" if not q else "mkem"
    ed(g, F, "	var m [common.MaxMsgBsz]byte\n	var r [common.MaxSidhPrivateKeyBsz]byte\n	var pkBytes [3 * common.MaxSharedSecretBsz]byte\n", "	pk := make([]byte, pub.Size())\n	msg := make([]byte, len(c.msg))\n	sk := make([]byte, len(c.secretBytes))\n")
    s = open(R + "/" + F).read()
    i = s.index("	c1Len, err := c.decrypt("); j = s.index("	return nil\n}\n", i)
    ed(g, F, s[i:j], '''	split := len(ciphertext) - len(c.msg)
	if _, err := c.decrypt(msg, prv, ciphertext); err != nil {
		return err
	}

	// r' = G(m'||pub)
	pub.Export(pk)
	c.sponge(sk, msg, pk)
	// Ensure bitlength is not bigger than 2^e2-1
	sk[len(sk)-1] &= (1 << (c.params.A.SecretBitLen % 8)) - 1
	if err := skA.Import(sk); err != nil {
		return err
	}
	skA.GeneratePublicKey(pkA)
	pkA.Export(pk)
	same := subtle.ConstantTimeCompare(pk, ciphertext[:split])
	subtle.ConstantTimeCopy(1-same, msg, prv.S)
	c.sponge(secret[:c.SharedSecretSize()], msg, ciphertext)
''')
    ed(g, F, "// Returns size of resulting ciphertext.\n", '''// sponge hashes the concatenation of in
func (c *KEM) sponge(out []byte, in ...[]byte) {
	c.shake.Reset()
	for _, b := range in {
		_, _ = c.shake.Write(b)
	}
	_, _ = c.shake.Read(out)
}

// Returns size of resulting ciphertext.
''')
    fn(g, F, "func (c *KEM) generateCiphertext(", '''func (c *KEM) generateCiphertext(ctext []byte, skA *%sPrivateKey, pkA, pkB *%sPublicKey, ptext []byte) {
	j := make([]byte, skA.SharedSecretSize())
	n := make([]byte, skA.Params.MsgLen)
	pkA.Export(ctext)
	skA.DeriveSecret(j, pkB)
	c.sponge(n, j)
	for i, b := range ptext {
		ctext[pkA.Size()+i] = n[i] ^ b
	}
}
''' % (q, q))
for p in ("434", "503", "751"):
    F = "dh/sidh/internal/p%s/core.go" % p
    for X, x in (("A", "4"), ("B", "3")):
        s = open(R + "/" + F).read()
        step = "Pow2k(xR, &cparam, 2*k)" if X == "A" else "Pow3k(xR, &cparam, k)"
        new = '''func traverseTreePublicKey%s(curve *ProjectiveCurveParameters, xR, phiP, phiQ, phiR *ProjectivePoint) {
	walk%s(curve, xR, phiP, phiQ, phiR)
}

// walk%s goes through the isogeny tree and takes the given points along.
func walk%s(curve *ProjectiveCurveParameters, xR *ProjectivePoint, images ...*ProjectivePoint) {
	type node struct {
		pt ProjectivePoint
		at int
	}
	var stack []node
	var phi isogeny%s
	cparam := CalcCurveParamsEquiv%s(curve)
	strat := params.%s.IsogenyStrategy
	n, at, next := len(strat), 0, 0
	for row := 1; row <= n; row++ {
		for ; at <= n-row; next++ {
			k := strat[next]
			stack = append(stack, node{*xR, at})
			%s
			at += int(k)
		}
		cparam = phi.GenerateCurve(xR)
		for i := range stack {
			stack[i].pt = phi.EvaluatePoint(&stack[i].pt)
		}
		for _, q := range images {
			*q = phi.EvaluatePoint(q)
		}
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		*xR, at = top.pt, top.at
	}
}
''' % (X, X, X, X, x, x, X, step)
        fn("core", F, "func traverseTreePublicKey%s(" % X, new)
        fn("core", F, "func traverseTreeSharedKey%s(" % X, '''func traverseTreeSharedKey%s(curve *ProjectiveCurveParameters, xR *ProjectivePoint) {
	walk%s(curve, xR)
}
''' % (X, X))
    F = "dh/sidh/internal/p%s/curve.go" % p
    fn("core", F, "func Fp2Batch3Inv(", '''func Fp2Batch3Inv(x1, x2, x3, y1, y2, y3 *Fp2) {
	for _, v := range [3][2]*Fp2{{x1, y1}, {x2, y2}, {x3, y3}} {
		inv(v[1], v[0])
	}
}
''')
    fn("core", F, "func ScalarMul3Pt(", '''func ScalarMul3Pt(cparams *ProjectiveCurveParameters, P, Q, PmQ *ProjectivePoint, nbits uint, scalar []uint8) ProjectivePoint {
	a24 := CalcAplus2Over4(cparams)
	acc, in, out := *Q, *P, *PmQ
	for i := uint(0); i < nbits; i++ {
		bit := (scalar[i/8] >> (i %% 8)) & 1
		cswap(&in.X, &in.Z, &out.X, &out.Z, bit)
		acc, out = xDbladd(&acc, &out, &in, &a24)
		cswap(&in.X, &in.Z, &out.X, &out.Z, bit)
	}
	return in
}
'''.replace("%%", "%"))
    F = "dh/sidh/internal/p%s/fp2.go" % p
    s = open(R + "/dh/sidh/internal/p%s/arith_decl.go" % p).read() if False else ""
F = "dh/sidh/common/utils.go"
fn("common", F, "func Cpick(", '''func Cpick(pick int, out, in1, in2 []byte) {
	which := -byte(pick & 1)
	for i := range out {
		out[i] = in2[i] ^ (which & (in1[i] ^ in2[i]))
	}
}
''')
n = 0
for g, f, old, new in E:
    if only and g not in only: continue
    s = open(R + "/" + f).read()
    if isinstance(old, tuple):
        head = old[1]
        assert s.count("\n" + head) == 1, (f, head, s.count("\n" + head))
        i = s.index("\n" + head) + 1; j = s.index("\n}\n", i) + 3
        s = s[:i] + new + s[j:]
    else:
        assert s.count(old) == 1, (f, old, s.count(old))
        s = s.replace(old, new)
    open(R + "/" + f, "w").write(s); n += 1
print(n, "rewrites")
