#!/usr/bin/env python3
"""Applies behaviour-preserving rewrites to a copy of the repository (development tool):
all.py REPO [GROUP...]. The checks have to stay quiet on the result."""
import re, sys
R = sys.argv[1]; only = sys.argv[2:]
GROUPS = {}
def g(name): GROUPS[name] = []; return GROUPS[name]
def ed(name, file, old, new, n=1): GROUPS.setdefault(name, []).append((file, old, new, n))
def rx(name, file, old, new): GROUPS.setdefault(name, []).append((file, re.compile(old, re.S), new, -1))

# ---- hash/sha3
F = "hash/sha3/sha3.go"
ed("sha3", F, '''	for i := range d.a {
		d.a[i] = 0
	}
	for i := range d.data {
		d.data[i] = 0
	}
	d.isSquezing = false
	d.idx = 0
''', '''	d.idx, d.isSquezing = 0, false
	d.a = [25]uint64{}
	d.data = storageBuf{}
''')
ed("sha3", F, '''	in = in[fbLen:]
	for len(in) >= rate {
		xorIn(c, in[:rate])
		keccakF1600(&c.a)
		in = in[rate:]
	}

	// store unprocessed data
	copy(buf[:], in)
	c.idx = len(in)
''', '''	off := fbLen
	for ; off+rate <= len(in); off += rate {
		xorIn(c, in[off:off+rate])
		keccakF1600(&c.a)
	}

	// store unprocessed data
	c.idx = copy(buf[:], in[off:])
''')
ed("sha3", F, '''	nblocks := len(out) / rate
	for nblocks > 0 {
		keccakF1600(&c.a)
		copyOut(c, out[:rate])
		out = out[rate:]
		nblocks--
	}

	keccakF1600(&c.a)
	copyOut(c, buf)
''', '''	for ; len(out) >= rate; out = out[rate:] {
		c.squeezeBlock(out[:rate])
	}
	c.squeezeBlock(buf)
''')
ed("sha3", F, "func (c *state) digest(", '''// squeezeBlock produces the next block of output.
func (c *state) squeezeBlock(out []byte) {
	keccakF1600(&c.a)
	copyOut(c, out)
}

func (c *state) digest(''')
ed("sha3", F, '''	// create buffer if nil has been provided
	if in == nil {
		in = make([]byte, c.Size())
	}

	// enlarge capacity of the buffer if needed
	if cap(in) < (l + c.Size()) {
		b := make([]byte, l+c.Size()-cap(in))
		in = append(in[:cap(in)], b...)
	}

	in = in[:l+c.Size()]
''', '''	in = append(in, make([]byte, c.Size())...)
''')
rx("sha3", F, r"\bc\.idx\b|\bd\.idx\b", lambda m: m.group(0)[:2] + "pos")
rx("sha3", F, r"\n	idx +int", "\n	pos int")
F = "hash/sha3/shake.go"
ed("sha3", F, '''	buf := make([]byte, 0, 9+len(input)+w)
	buf = append(buf, leftEncode(uint64(w))...)
	buf = append(buf, input...)
	if padlen := w - (len(buf) % w); padlen < w {
		buf = append(buf, make([]byte, padlen)...)
	}
	return buf
''', '''	head := leftEncode(uint64(w))
	size := len(head) + len(input)
	if rest := size % w; rest != 0 {
		size += w - rest
	}
	buf := make([]byte, size)
	copy(buf[copy(buf, head):], input)
	return buf
''')
ed("sha3", F, '''	i := byte(1)
	for i < 8 && b[i] == 0 {
		i++
	}
	// Prepend number of encoded bytes
	b[i-1] = 9 - i
	return b[i-1:]
''', '''	n := byte(1)
	for v := value >> 8; v != 0; v >>= 8 {
		n++
	}
	// Prepend number of encoded bytes
	b[8-n] = n
	return b[8-n:]
''')
ed("sha3", F, '''	b = append(b, leftEncode(uint64(len(N))*8)...)
	b = append(b, N...)
	b = append(b, leftEncode(uint64(len(S))*8)...)
	b = append(b, S...)
	c.initBlock = bytepad(b, c.BlockSize())
''', '''	for _, str := range [][]byte{N, S} {
		b = append(b, leftEncode(uint64(len(str))*8)...)
		b = append(b, str...)
	}
	c.initBlock = bytepad(b, c.BlockSize())
''')
ed("sha3", F, '''	b := make([]byte, len(c.initBlock))
	copy(b, c.initBlock)
	return &cshakeState{state: c.state, initBlock: b}
''', '''	dup := *c
	dup.initBlock = append([]byte(nil), c.initBlock...)
	return &dup
''')
F = "hash/sha3/xor_unaligned.go"
rx("sha3", F, r"	if n >= 72 \{.*?\n	if n >= 168 \{.*?\n	\}\n", "	for i, w := range bw {\n		d.a[i] ^= w\n	}\n")
# ---- sm3
F = "hash/sm3/sm3.go"
ed("sm3", F, '''	nblocks := int(len(input) / d.BlockSize())
	d.compress(input[:], nblocks)

	// this eventually could be done in d.compress
	copy(d.b[:], input[nblocks*d.BlockSize():])
''', '''	full := len(input) - len(input)%d.BlockSize()
	for rest := input[:full]; len(rest) > 0; rest = rest[d.BlockSize():] {
		d.compress(rest, 1)
	}
	copy(d.b[:], input[full:])
''')
ed("sm3", F, '''	for i := 0; i < Size/4; i++ {
		store32Be(output[4*i:], dc.h[i])
	}
''', '''	for i, word := range dc.h {
		store32Be(output[4*i:], word)
	}
''')
F = "hash/sm3/compress.go"
ed("sm3", F, "    return ((A ^ B) & M) ^ B", "	return (A & M) | (B &^ M)")
ed("sm3", F, "	return ch(Y^Z, X, Y)", "	return (X & Y) | (X & Z) | (Y & Z)")
ed("sm3", F, '''	val[0] = byte(x >> 56)
	val[1] = byte(x >> 48)
	val[2] = byte(x >> 40)
	val[3] = byte(x >> 32)
	val[4] = byte(x >> 24)
	val[5] = byte(x >> 16)
	val[6] = byte(x >> 8)
	val[7] = byte(x >> 0)
''', '''	store32Be(val, uint32(x>>32))
	store32Be(val[4:], uint32(x))
''')
# ---- drbg
F = "drbg/ctr_drbg.go"
ed("drbg", F, '''	for i := BlockLen - 1; i >= 0; i-- {
		if c.v[i] == 0xff {
			c.v[i] = 0x00
		} else {
			c.v[i]++
			break
		}
	}
''', '''	carry := uint16(1)
	for i := BlockLen - 1; i >= 0; i-- {
		carry += uint16(c.v[i])
		c.v[i] = byte(carry)
		carry >>= 8
	}
''')
ed("drbg", F, '''	for i := 0; i < 3*BlockLen; i += BlockLen {
		c.inc()
		c.blockEnc.SetKey(c.key[:])
		c.blockEnc.Encrypt(c.tmpBlk[i:], c.v[:])
	}

	for i := 0; i < 3*BlockLen; i++ {
		c.tmpBlk[i] ^= data[i]
	}

	copy(c.key[:], c.tmpBlk[:KeyLen])
	copy(c.v[:], c.tmpBlk[KeyLen:])
''', '''	c.blockEnc.SetKey(c.key[:])
	for i := 0; i < 3*BlockLen; i += BlockLen {
		c.block(c.tmpBlk[i:])
	}
	for i, d := range data {
		c.tmpBlk[i] ^= d
	}
	copy(c.v[:], c.tmpBlk[KeyLen:])
	copy(c.key[:], c.tmpBlk[:])
''')
ed("drbg", F, "func (c *CtrDrbg) Reseed(", '''// block encrypts the next counter.
func (c *CtrDrbg) block(out []byte) {
	c.inc()
	c.blockEnc.Encrypt(out, c.v[:])
}

// seed combines the two inputs.
func seed(a, b []byte) (s [SeedLen]byte) {
	copy(s[:], a)
	for i := range s {
		if i >= len(b) {
			break
		}
		s[i] ^= b[i]
	}
	return s
}

func (c *CtrDrbg) Reseed(''')
ed("drbg", F, '''	var seedBuf [SeedLen]byte
	var lsz int

	lsz = len(entropy)
	if lsz > SeedLen {
		lsz = SeedLen
	}
	copy(seedBuf[:], entropy[:lsz])

	lsz = len(data)
	if lsz > SeedLen {
		lsz = SeedLen
	}

	for i := 0; i < lsz; i++ {
		seedBuf[i] ^= data[i]
	}

	c.update(seedBuf[:])
''', '''	seedBuf := seed(entropy, data)
	c.update(seedBuf[:])
''')
ed("drbg", F, '''	lsz = len(entropy)
	if lsz > SeedLen {
		lsz = SeedLen
	}
	copy(seedBuf[:], entropy[:lsz])

	lsz = len(personalization)
	if lsz > SeedLen {
		lsz = SeedLen
	}

	for i := 0; i < lsz; i++ {
		seedBuf[i] ^= personalization[i]
	}
''', '''	seedBuf := seed(entropy, personalization)
''')
ed("drbg", F, '''	var lsz int
	var seedBuf [SeedLen]byte

	// Minimum''', "	// Minimum")
ed("drbg", F, '''	blocks := len(out) / BlockLen
	for i := 0; i < blocks; i++ {
		c.inc()
		c.blockEnc.SetKey(c.key[:])
		c.blockEnc.Encrypt(out[i*BlockLen:], c.v[:])
	}

	// Copy remainder - case for out being not block aligned
	if len(out)%BlockLen != 0 {
		c.inc()
		c.blockEnc.SetKey(c.key[:])
		c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
		copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
	}

	c.update(seedBuf[:])
	c.counter += 1
	return len(out), nil
''', '''	c.blockEnc.SetKey(c.key[:])
	for n+BlockLen <= len(out) {
		c.block(out[n:])
		n += BlockLen
	}

	// Copy remainder - case for out being not block aligned
	if n < len(out) {
		c.block(c.tmpBlk[:])
		n += copy(out[n:], c.tmpBlk[:BlockLen])
	}

	c.update(seedBuf[:])
	c.counter++
	return n, nil
''')
F = "drbg/internal/aes/generic.go"
rx("aes", F, r"	var t0, t1, t2, t3 uint32\n	for r := 0; r < nr; r\+\+ \{\n(		t0 = xk\[k\+0\] \^ te0.*?)		k \+= 4\n		s0, s1, s2, s3 = t0, t1, t2, t3\n	\}\n",
   lambda m: "	var t0, t1, t2, t3 uint32\n	for ; k < 4*(nr+1); k += 4 {\n" + m.group(1) + "		s0, s1, s2, s3 = t0, t1, t2, t3\n	}\n")
ed("aes", F, '''	return uint32(sbox0[w>>24])<<24 |
		uint32(sbox0[w>>16&0xff])<<16 |
		uint32(sbox0[w>>8&0xff])<<8 |
		uint32(sbox0[w&0xff])
''', '''	var r uint32
	for s := uint(0); s < 32; s += 8 {
		r |= uint32(sbox0[uint8(w>>s)]) << s
	}
	return r
''')
# ---- csidh
F = "dh/csidh/csidh.go"
ed("csidh", F, '''		for i := 0; i < len(s.wbuf); i++ {
			j := i / limbByteSize
			k := uint(i % 8)
			v[j] |= uint64(s.wbuf[i]) << (8 * k)
		}
''', '''		for j := range v {
			v[j] = binary.LittleEndian.Uint64(s.wbuf[8*j:])
		}
''')
ed("csidh", F, 'import (\n', 'import (\n	"encoding/binary"\n')
ed("csidh", F, '''	c.a = fp{}
	for i := 0; i < len(key); i++ {
		j := i / limbByteSize
		k := uint64(i % 8)
		c.a[j] |= uint64(key[i]) << (8 * k)
	}
	return true
''', '''	for i := range c.a {
		c.a[i] = binary.LittleEndian.Uint64(key[i*limbByteSize:])
	}
	return true
''')
ed("csidh", F, '''	for i := 0; i < len(out); i++ {
		j := i / limbByteSize
		k := uint64(i % 8)
		out[i] = byte(c.a[j] >> (8 * k))
	}
	return true
''', '''	for i, limb := range c.a {
		for k := 0; k < limbByteSize; k++ {
			out[i*limbByteSize+k] = byte(limb)
			limb >>= 8
		}
	}
	return true
''')
ed("csidh", F, '''	for i := range pub.a {
		pub.a[i] = 0
	}
	groupAction(pub, prv, rng)
''', '''	*pub = PublicKey{}
	groupAction(pub, prv, rng)
''')
ed("csidh", F, '''	for i, v := range primes {
		t := (prv.e[uint(i)>>1] << ((uint(i) % 2) * 4)) >> 4
		if t > 0 {
			e[0][i] = uint8(t)
			e[1][i] = 0
			mul512(&k[1], &k[1], v)
		} else if t < 0 {
			e[1][i] = uint8(-t)
			e[0][i] = 0
			mul512(&k[0], &k[0], v)
		} else {
			e[0][i] = 0
			e[1][i] = 0
			mul512(&k[0], &k[0], v)
			mul512(&k[1], &k[1], v)
		}
	}
''', '''	for i, v := range primes {
		switch t := prv.exponent(i); {
		case t > 0:
			e[0][i] = uint8(t)
		case t < 0:
			e[1][i] = uint8(-t)
		}
		for s := range k {
			if e[s][i] == 0 {
				mul512(&k[s], &k[s], v)
			}
		}
	}
''')
ed("csidh", F, "// groupAction evaluates", '''// exponent returns the i-th exponent of the key.
func (c *PrivateKey) exponent(i int) int8 {
	nibble := c.e[i/2]
	if i%2 == 0 {
		return nibble >> 4
	}
	return nibble << 4 >> 4
}

// groupAction evaluates''')
# exponent order: even index -> shift by 0 -> high nibble
ed("csidh", F, '''				for j := i + 1; j < len(primes); j++ {
					if e[sign][j] != 0 {
						mul512(&cof, &cof, primes[j])
					}
				}
''', '''				for j := len(primes) - 1; j > i; j-- {
					if e[sign][j] == 0 {
						continue
					}
					mul512(&cof, &cof, primes[j])
				}
''')
ed("csidh", F, '''		for j := range key.wbuf {
			if int8(key.wbuf[j]) <= expMax && int8(key.wbuf[j]) >= -expMax {
				key.e[i>>1] |= int8((key.wbuf[j] & 0xF) << uint((i%2)*4))
				i = i + 1
				if i == len(primes) {
					break
				}
			}
		}
''', '''		for j := 0; j < len(key.wbuf) && i < len(primes); j++ {
			b := int8(key.wbuf[j])
			if b < -expMax || b > expMax {
				continue
			}
			if b &= 0xF; i%2 == 1 {
				b <<= 4
			}
			key.e[i/2] |= b
			i++
		}
''')
F = "dh/csidh/fp511.go"
ed("csidh-fp", F, '''	for i := numWords - 1; i >= 0; i-- {
		v, c := bits.Sub64(y[i], x[i], 0)
		if c != 0 {
			return false
		}
		if v != 0 {
			return true
		}
	}
	// x == y
	return false
''', '''	var borrow uint64
	for i := range x {
		_, borrow = bits.Sub64(x[i], y[i], borrow)
	}
	return borrow != 0
''')
rx("csidh-fp", F, r"	var c uint64\n	var t fp\n	r\[0\], c = bits\.Add64\(x\[0\].*?r\[7\] = ctPick64\(w, r\[7\], t\[7\]\)\n", '''	var c uint64
	for i := range r {
		r[i], c = bits.Add64(x[i], y[i], c)
	}
	r.reduceOnce()
''')
rx("csidh-fp", F, r"	// if p <= r < 2p then r = r-p\n.*?r\[7\] = ctPick64\(w, r\[7\], t\[7\]\)\n", "	r.reduceOnce()\n")
ed("csidh-fp", F, "	var t fp\n	var c uint64\n\n	// Precompute step", "	// Precompute step")
ed("csidh-fp", F, "// r = x + y mod p.", '''// reduceOnce maps p <= r < 2p to r-p.
func (r *fp) reduceOnce() {
	var t fp
	w := 0 - sub512(&t, r, &p)
	for i := range r {
		r[i] = ctPick64(w, r[i], t[i])
	}
}

// r = x + y mod p.''')
rx("csidh-fp", F, r"	r\[0\], c = bits\.Add64\(r\[0\], ctPick64\(w, p\[0\], 0\), 0\).*?	r\[7\], _ = bits\.Add64\(r\[7\], ctPick64\(w, p\[7\], 0\), c\)\n", '''	c = 0
	for i := range r {
		r[i], c = bits.Add64(r[i], p[i]&w, c)
	}
''')
ed("csidh-fp", F, '''	var r uint64
	for i := 0; i < numWords; i++ {
		r |= v[i]
	}
	return ctIsNonZero64(r) == 0
''', '''	return v.equal(&fp{})
''')
F = "dh/csidh/curve.go"
ed("csidh", F, '''	for j = 511; j > 0; j-- {
		// performance hit from making it constant-time is actually
		// quite big, so... unsafe branch for now
		if uint8(k[j>>6]>>(j&63)&1) != 0 {
			break
		}
	}
''', '''	j = 511
	for j > 0 && !bit(k, j) {
		j--
	}
''')
ed("csidh", F, "// xMul implements point", '''// bit tells if a bit of k is set.
func bit(k *fp, i uint) bool {
	return k[i/64]&(1<<(i%64)) != 0
}

// xMul implements point''')
ed("csidh", F, '''	mulRdc(&prod.x, &prod.x, &prod.x)
	mulRdc(&prod.x, &prod.x, &prod.x)
	mulRdc(&prod.x, &prod.x, &prod.x)
	mulRdc(&prod.z, &prod.z, &prod.z)
	mulRdc(&prod.z, &prod.z, &prod.z)
	mulRdc(&prod.z, &prod.z, &prod.z)
''', '''	for i := 0; i < 3; i++ {
		mulRdc(&prod.z, &prod.z, &prod.z)
		mulRdc(&prod.x, &prod.x, &prod.x)
	}
''')
# ---- sidh
F = "dh/sidh/sidh.go"
ed("sidh", F, '''	common.BytesToFp2(&pub.affine3Pt[0], input[0:ssSz], pub.Params.Bytelen)
	common.BytesToFp2(&pub.affine3Pt[1], input[ssSz:2*ssSz], pub.Params.Bytelen)
	common.BytesToFp2(&pub.affine3Pt[2], input[2*ssSz:3*ssSz], pub.Params.Bytelen)
	switch pub.Params.ID {
	case Fp434:
		p434.ToMontgomery(&pub.affine3Pt[0], &pub.affine3Pt[0])
		p434.ToMontgomery(&pub.affine3Pt[1], &pub.affine3Pt[1])
		p434.ToMontgomery(&pub.affine3Pt[2], &pub.affine3Pt[2])
	case Fp503:
		p503.ToMontgomery(&pub.affine3Pt[0], &pub.affine3Pt[0])
		p503.ToMontgomery(&pub.affine3Pt[1], &pub.affine3Pt[1])
		p503.ToMontgomery(&pub.affine3Pt[2], &pub.affine3Pt[2])
	case Fp751:
		p751.ToMontgomery(&pub.affine3Pt[0], &pub.affine3Pt[0])
		p751.ToMontgomery(&pub.affine3Pt[1], &pub.affine3Pt[1])
		p751.ToMontgomery(&pub.affine3Pt[2], &pub.affine3Pt[2])
	default:
		panic("Unsupported key")
	}
''', '''	conv := map[uint8]func(out, in *common.Fp2){Fp434: p434.ToMontgomery, Fp503: p503.ToMontgomery, Fp751: p751.ToMontgomery}[pub.Params.ID]
	if conv == nil {
		panic("Unsupported key")
	}
	for i := range pub.affine3Pt {
		var x common.Fp2
		common.BytesToFp2(&x, input[i*ssSz:], pub.Params.Bytelen)
		conv(&pub.affine3Pt[i], &x)
	}
''')
ed("sidh", F, '''	var feTmp [3]common.Fp2
	ssSz := pub.Params.SharedSecretSize
	switch pub.Params.ID {
	case Fp434:
		p434.FromMontgomery(&feTmp[0], &pub.affine3Pt[0])
		p434.FromMontgomery(&feTmp[1], &pub.affine3Pt[1])
		p434.FromMontgomery(&feTmp[2], &pub.affine3Pt[2])
	case Fp503:
		p503.FromMontgomery(&feTmp[0], &pub.affine3Pt[0])
		p503.FromMontgomery(&feTmp[1], &pub.affine3Pt[1])
		p503.FromMontgomery(&feTmp[2], &pub.affine3Pt[2])
	case Fp751:
		p751.FromMontgomery(&feTmp[0], &pub.affine3Pt[0])
		p751.FromMontgomery(&feTmp[1], &pub.affine3Pt[1])
		p751.FromMontgomery(&feTmp[2], &pub.affine3Pt[2])
	default:
		panic("Unsupported key")
	}
	common.Fp2ToBytes(out[0:ssSz], &feTmp[0], pub.Params.Bytelen)
	common.Fp2ToBytes(out[ssSz:2*ssSz], &feTmp[1], pub.Params.Bytelen)
	common.Fp2ToBytes(out[2*ssSz:3*ssSz], &feTmp[2], pub.Params.Bytelen)
''', '''	ssSz := pub.Params.SharedSecretSize
	for i := range pub.affine3Pt {
		var fe common.Fp2
		switch pub.Params.ID {
		case Fp434:
			p434.FromMontgomery(&fe, &pub.affine3Pt[i])
		case Fp503:
			p503.FromMontgomery(&fe, &pub.affine3Pt[i])
		case Fp751:
			p751.FromMontgomery(&fe, &pub.affine3Pt[i])
		default:
			panic("Unsupported key")
		}
		common.Fp2ToBytes(out[i*ssSz:(i+1)*ssSz], &fe, pub.Params.Bytelen)
	}
''')
ed("sidh", F, '''	copy(out, prv.S)
	copy(out[len(prv.S):], prv.Scalar)
''', '''	n := copy(out, prv.S)
	copy(out[n:], prv.Scalar)
''')
ed("sidh", F, '''	prv := &PrivateKey{Key: Key{Params: common.Params(id), KeyVariant: v}}
	if (v & KeyVariantSidhA) == KeyVariantSidhA {
		prv.Scalar = make([]byte, prv.Params.A.SecretByteLen)
	} else {
		prv.Scalar = make([]byte, prv.Params.B.SecretByteLen)
	}
	if v == KeyVariantSike {
		prv.S = make([]byte, prv.Params.MsgLen)
	}
	return prv
''', '''	var prv PrivateKey
	prv.Init(id, v)
	return &prv
''')
ed("sidh", F, '''	prv.Scalar[len(prv.Scalar)-1] &= (1 << (dp.SecretBitLen % 8)) - 1
	// Make''', '''	last := len(prv.Scalar) - 1
	prv.Scalar[last] &= (1 << (dp.SecretBitLen % 8)) - 1
	// Make''')
rx("sidh", F, r"var isA = \(prv\.KeyVariant & KeyVariantSidhA\) == KeyVariantSidhA", "isA := prv.KeyVariant&KeyVariantSidhA != 0")
for F, q in (("dh/sidh/sike.go", ""), ("kem/mkem/sike.go", "sidh.")):
    G = "sike"
    ed(G, F, '''	c.shake.Reset()
	_, _ = c.shake.Write(c.msg)
	_, _ = c.shake.Write(buf[:3*c.params.SharedSecretSize])
	_, _ = c.shake.Read(skA.Scalar)

	// Ensure bitlength is not bigger then to 2^e2-1
	skA.Scalar[len(skA.Scalar)-1] &= (1 << (c.params.A.SecretBitLen % 8)) - 1
''', '''	c.derive(skA.Scalar, c.msg, buf[:3*c.params.SharedSecretSize])
''')
    ed(G, F, '''	c.shake.Reset()
	_, _ = c.shake.Write(m[:c1Len])
	_, _ = c.shake.Write(pkBytes[:3*c.params.SharedSecretSize])
	_, _ = c.shake.Read(r[:c.params.A.SecretByteLen])
	// Ensure bitlength is not bigger than 2^e2-1
	r[c.params.A.SecretByteLen-1] &= (1 << (c.params.A.SecretBitLen % 8)) - 1
''', '''	c.derive(r[:c.params.A.SecretByteLen], m[:c1Len], pkBytes[:3*c.params.SharedSecretSize])
''')
    ed(G, F, '''	c.shake.Reset()
	_, _ = c.shake.Write(c.msg)
	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
''', '''	c.hash(secret[:c.SharedSecretSize()], c.msg, ciphertext[:c.CiphertextSize()])
''')
    ed(G, F, '''	for i := range c.msg {
		c.msg[i] = 0
	}

	for i := range c.secretBytes {
		c.secretBytes[i] = 0
	}
}
''', '''	for _, buf := range [][]byte{c.secretBytes, c.msg} {
		for i := range buf {
			buf[i] = 0
		}
	}
}

// hash computes the hash of the concatenated inputs.
func (c *KEM) hash(out []byte, in ...[]byte) {
	c.shake.Reset()
	for _, b := range in {
		_, _ = c.shake.Write(b)
	}
	_, _ = c.shake.Read(out)
}

// derive hashes to a private key.
func (c *KEM) derive(scalar []byte, in ...[]byte) {
	c.hash(scalar, in...)
	// Ensure bitlength is not bigger then to 2^e2-1
	scalar[len(scalar)-1] &= (1 << (c.params.A.SecretBitLen % 8)) - 1
}
''')
    ed(G, F, '''	c.msg = make([]byte, c.params.MsgLen)
	c.secretBytes = make([]byte, c.params.A.SecretByteLen)
	c.shake = sha3.NewShake256()
	c.allocated = true
}

// Encapsulate''' if not q else '''	c.msg = make([]byte, c.params.MsgLen)
	c.secretBytes = make([]byte, c.params.A.SecretByteLen)
	c.shake = sha3.NewShake256()
	c.allocated = true
	c.cts =''', '''	c.shake = sha3.NewShake256()
	c.secretBytes = make([]byte, c.params.A.SecretByteLen)
	c.msg = make([]byte, c.params.MsgLen)
	c.allocated = true
''' + ('''}

// Encapsulate''' if not q else "	c.cts ="))
F = "kem/mkem/sike.go"
ed("mkem", F, '''		c.shake.Reset()
		_, _ = c.shake.Write(G2)
		_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
		_, _ = c.shake.Read(c.cts[ct_i][:skA.Params.MsgLen])
		for i := 0; i < skA.Params.MsgLen; i++ {
			// ct[i]
			c.cts[ct_i][i] ^= c.msg[i]
		}
''', '''		c.mask(c.cts[ct_i][:skA.Params.MsgLen], c.msg)
''')
ed("mkem", F, '''	c.shake.Reset()
	// H(j)
	_, _ = c.shake.Write(G2)
	_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
	_, _ = c.shake.Read(cti[:skA.Params.MsgLen])
	for i := 0; i < skA.Params.MsgLen; i++ {
		cti[i] ^= m[i]
	}
''', '''	c.mask(cti[:skA.Params.MsgLen], m[:])
''')
ed("mkem", F, "func (c *MultiKEM) NewPrivateKey()", '''// mask computes out = H(j) ^ in.
func (c *MultiKEM) mask(out, in []byte) {
	c.shake.Reset()
	_, _ = c.shake.Write(G2)
	_, _ = c.shake.Write(c.j[:c.params.SharedSecretSize])
	_, _ = c.shake.Read(out)
	for i := range out {
		out[i] ^= in[i]
	}
}

func (c *MultiKEM) NewPrivateKey()''')
ed("mkem", F, '''	mask := subtle.ConstantTimeCompare(r[:c.params.PublicKeySize], c.ct0[:c.params.PublicKeySize])
	mask &= subtle.ConstantTimeCompare(ctext[:skA.Params.MsgLen], cti[:skA.Params.MsgLen])
''', '''	same0 := subtle.ConstantTimeCompare(r[:c.params.PublicKeySize], c.ct0[:c.params.PublicKeySize])
	same1 := subtle.ConstantTimeCompare(ctext[:skA.Params.MsgLen], cti[:skA.Params.MsgLen])
	mask := same0 & same1
''')
F = "kem/mkem/csidh.go"
for a, b in (("ct.V[i] = pt[i] ^ ss[i]", "ct.V[:]"), ("pt[i] = ct.V[i] ^ ss[i]", "pt[:]")):
    ed("mkem", F, f'''	c.H.Reset()
	c.H.Write(ss[:])
	c.H.Read(ss[:16])
	for i := 0; i < 16; i++ {{
		{a}
	}}
''', '''	c.hide(%s, %s, &ss)
''' % (b, "pt[:]" if b != "pt[:]" else "ct.V[:16]"))
ed("mkem", F, '''		c.H.Reset()
		c.H.Write(ss[:])
		c.H.Read(ss[:16])
		for j := 0; j < 16; j++ {
			c.Cts[i][j] = pt[j] ^ ss[j]
		}
''', '''		c.hide(c.Cts[i][:], pt[:], &ss)
''')
ed("mkem", F, "// PKE encryption", '''// hide computes out = in ^ H(ss).
func (c *PKE) hide(out, in []byte, ss *[64]byte) {
	var pad [16]byte
	c.H.Reset()
	_, _ = c.H.Write(ss[:])
	_, _ = c.H.Read(pad[:])
	for i, b := range pad {
		out[i] = in[i] ^ b
	}
}

// PKE encryption''')
ed("mkem", F, '''	for i, pk := range keys {
		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
''', '''	for i := range keys {
		pk := keys[i]
		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
''')
# ---- common
F = "dh/sidh/common/utils.go"
ed("common", F, '''	var which = byte((int8(pick << 7)) >> 7)
	for i := range out {
		out[i] = (in1[i] & which) | (in2[i] & ^which)
	}
''', '''	which := byte(-pick)
	for i := range out {
		out[i] = in2[i] ^ (which & (in1[i] ^ in2[i]))
	}
''')
ed("common", F, '''	*fp2 = Fp2{}
	for i := 0; i < bytelen; i++ {
		j := i / 8
		k := uint64(i % 8)
		fp2.A[j] |= uint64(input[i]) << (8 * k)
		fp2.B[j] |= uint64(input[i+bytelen]) << (8 * k)
	}
''', '''	bytesToFp(&fp2.A, input[:bytelen])
	bytesToFp(&fp2.B, input[bytelen:2*bytelen])
''')
ed("common", F, "// Read 2*bytelen", '''func bytesToFp(x *Fp, in []byte) {
	*x = Fp{}
	for i := len(in) - 1; i >= 0; i-- {
		x[i/8] = x[i/8]<<8 | uint64(in[i])
	}
}

// Read 2*bytelen''')
# ---- field cores
for P in ("434", "503", "751"):
    D = f"dh/sidh/internal/p{P}/"
    F = D + "core.go"
    ed("core", F, '''		for k := 0; k < len(points); k++ {
			points[k] = phi.EvaluatePoint(&points[k])
		}
''', '''		for k := range points {
			p := &points[k]
			*p = phi.EvaluatePoint(p)
		}
''', 4)
    ed("core", F, '''		*phiP = phi.EvaluatePoint(phiP)
		*phiQ = phi.EvaluatePoint(phiQ)
		*phiR = phi.EvaluatePoint(phiR)
''', '''		for _, x := range []*ProjectivePoint{phiR, phiQ, phiP} {
			*x = phi.EvaluatePoint(x)
		}
''', 2)
    ed("core", F, '''		*xR, points = points[len(points)-1], points[:len(points)-1]
		i, indices = int(indices[len(indices)-1]), indices[:len(indices)-1]
''', '''		top := len(points) - 1
		*xR, i = points[top], indices[top]
		points, indices = points[:top], indices[:top]
''', 4)
    F = D + "fp2.go"
    ed("core", F, '''		mulP(dest, dest, dest)
		for j := uint8(1); j < powStrategy[i]; j++ {
			mulP(dest, dest, dest)
		}
''', '''		for j := powStrategy[i]; j > 0; j-- {
			mulP(dest, dest, dest)
		}
''')
    ed("core", F, '''	copy(aR[:], in.A[:])
	rdc''', '''	bR := common.FpX2{}
	copy(bR[:], in.B[:])
	copy(aR[:], in.A[:])
	rdc''')
    rx("core", F, r"	for i := range aR \{\n		aR\[i\] = 0\n	\}\n	copy\(aR\[:\], in\.B\[:\]\)\n	(rdcP\d+)\(&out\.B, &aR\)", r"	\1(&out.B, &bR)")
    F = D + "arith_generic.go"
    rx("noasm", F, r"		for j := uint64\(0\); j <= i; j\+\+ \{", "		for j := int(i); j >= 0; j-- {")
    rx("noasm", F, r"for i := uint64\(0\); i < FpWords; i\+\+ \{\n		for j := int\(i\)", "for i := 0; i < FpWords; i++ {\n		for j := i")
    ed("noasm", F, '''		tmp = mask64 & (x[i] ^ y[i])
		x[i] = tmp ^ x[i]
		y[i] = tmp ^ y[i]
''', '''		tmp = (x[i] &^ mask64) | (y[i] & mask64)
		y[i] = (y[i] &^ mask64) | (x[i] & mask64)
		x[i] = tmp
''')
# ---- utils
F = "utils/cpuid_amd64.go"
ed("utils", F, '''	_, _, ecx, _ := cpuid(1, 0)
	X86.HasAES = bitn(ecx, 25)

	_, ebx, _, _ := cpuid(7, 0)
	X86.HasBMI2 = bitn(ebx, 8)
	X86.HasADX = bitn(ebx, 19)
	X86.HasRDSEED = bitn(ebx, 18)
''', '''	_, ebx, _, _ := cpuid(7, 0)
	_, _, ecx, _ := cpuid(1, 0)
	X86 = x86{
		HasBMI2:   bitn(ebx, 8),
		HasADX:    bitn(ebx, 19),
		HasAES:    bitn(ecx, 25),
		HasRDSEED: bitn(ebx, 18),
	}
''')
ok = True
for name, eds in GROUPS.items():
    if only and name not in only: continue
    for f, old, new, n in eds:
        s = open(f"{R}/{f}").read()
        if n == -1: t, k = old.subn(new, s); good = k > 0
        else: k = s.count(old); good = k == n; t = s.replace(old, new)
        if not good: print(f"{name}: {f}: {k} matches of {str(old)[:80]!r}"); ok = False; continue
        open(f"{R}/{f}", "w").write(t)
sys.exit(not ok)
