exec(open(ROOT + "/tools/seeds/i.py").read().split('\nbug("')[0])
def T(pkg, imports, body): return "package %s\n\nimport (\n%s)\n\n" % (pkg, "".join('\t"%s"\n' % i for i in imports)) + body
NB = "github.com/henrydcase/nobs/"

bug("C24-busy", "C24", "a failing random source, then a good one",
 "the KEM is marked as in use during encapsulation, also after an error of the random source",
 [("dh/sidh/sike.go", "	shake       sha3.ShakeHash\n}", "	shake       sha3.ShakeHash\n	busy        bool\n}"),
  ("dh/sidh/sike.go", "	// Generate ephemeral value\n	_, err := io.ReadFull(c.rng, c.msg[:])\n", "	if c.busy {\n		panic(\"KEM used concurrently\")\n	}\n	c.busy = true\n\n	// Generate ephemeral value\n	_, err := io.ReadFull(c.rng, c.msg[:])\n"),
  ("dh/sidh/sike.go", "	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])\n	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])\n	return nil\n", "	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])\n	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])\n	c.busy = false\n	return nil\n")],
 "dh/sidh", T("sidh", ["bytes", "crypto/rand", "io", "testing"], '''func TestDemo(t *testing.T) {
	k := NewSike434(io.MultiReader(bytes.NewReader(nil), &oneEOF{}))
	prv, pub := NewPrivateKey(Fp434, KeyVariantSike), NewPublicKey(Fp434, KeyVariantSike)
	prv.Generate(rand.Reader)
	prv.GeneratePublicKey(pub)
	ct, ss := make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize())
	k.rng = &oneEOF{}
	if k.Encapsulate(ct, ss, pub) == nil {
		t.Fatal("no error")
	}
	if err := k.Encapsulate(ct, ss, pub); err != nil {
		t.Fatal(err)
	}
}

type oneEOF struct{ n int }

func (o *oneEOF) Read(b []byte) (int, error) {
	if o.n++; o.n == 1 {
		return 0, io.EOF
	}
	return rand.Read(b)
}
'''))
bug("C27-error-kind", "C27", "a random source that ends in the middle of the message",
 "one of the two implementations replaces the error of the random source",
 [("kem/mkem/sike.go", "	_, err := io.ReadFull(c.rng, c.msg[:])\n	if err != nil {\n		return err\n	}\n\n	var buf [3", "	_, err := io.ReadFull(c.rng, c.msg[:])\n	if err == io.ErrUnexpectedEOF {\n		err = io.EOF\n	}\n	if err != nil {\n		return err\n	}\n\n	var buf [3")],
 "kem/mkem", T("mkem", ["bytes", "crypto/rand", "testing", NB + "dh/sidh"], '''func TestDemo(t *testing.T) {
	k, k2 := NewSike503(bytes.NewReader(make([]byte, 5))), sidh.NewSike503(bytes.NewReader(make([]byte, 5)))
	prv, pub := sidh.NewPrivateKey(sidh.Fp503, sidh.KeyVariantSike), sidh.NewPublicKey(sidh.Fp503, sidh.KeyVariantSike)
	prv.Generate(rand.Reader)
	prv.GeneratePublicKey(pub)
	ct, ss := make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize())
	if a, b := k.Encapsulate(ct, ss, pub), k2.Encapsulate(ct, ss, pub); a != b {
		t.Fatal("errors differ:", a, b)
	}
}
'''))
bug("C05-reseed-limit", "C05", "more than a million requests without reseeding",
 "after 2^20 requests the generator reseeds itself from its own output",
 [("drbg/ctr_drbg.go", "	c.counter += 1\n", "	c.counter += 1\n	if c.counter > 1<<20 {\n		c.Reseed(c.v[:], nil)\n	}\n")],
 "drbg", T("drbg", ["bytes", "testing"], '''func TestDemo(t *testing.T) {
	c := NewCtrDrbg()
	c.Init(make([]byte, 48), nil)
	for i := 0; i < 1<<20+5; i++ {
		d := *c
		d.blockEnc.SetKey(d.key[:])
		zero := [48]byte{}
		d.update(zero[:])
		c.Read(nil)
		if !bytes.Equal(d.v[:], c.v[:]) || d.key != c.key {
			t.Fatal("state differs after request", i)
		}
	}
}
'''))
bug("C18-zero-retry", "C18", "a random source that delivers a zero as first byte of the scalar",
 "a scalar whose first byte is zero is drawn again, so part of the key space is never reached",
 [("dh/sidh/sidh.go", "	if _, err := io.ReadFull(rand, prv.Scalar); err != nil {\n		return err\n	}\n", "	for ok := false; !ok; ok = prv.Scalar[0] != 0 {\n		if _, err := io.ReadFull(rand, prv.Scalar); err != nil {\n			return err\n		}\n	}\n")],
 "dh/sidh", T("sidh", ["math/rand", "testing"], '''func TestDemo(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	n := 0
	for i := 0; i < 20000; i++ {
		k := NewPrivateKey(Fp434, KeyVariantSidhB)
		k.Generate(rng)
		if k.Scalar[0] == 0 {
			n++
		}
	}
	if n == 0 {
		t.Fatal("keys with a first byte of zero are never generated")
	}
}
'''))
bug("C21-hash-all", "C21", "a ciphertext buffer that is longer than needed",
 "the sender's key is derived from the whole buffer",
 [("dh/sidh/sike.go", "	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])\n", "	_, _ = c.shake.Write(ciphertext)\n")],
 "dh/sidh", T("sidh", ["bytes", "crypto/rand", "testing"], '''func TestDemo(t *testing.T) {
	k := NewSike503(rand.Reader)
	prv, pub := NewPrivateKey(Fp503, KeyVariantSike), NewPublicKey(Fp503, KeyVariantSike)
	prv.Generate(rand.Reader)
	prv.GeneratePublicKey(pub)
	ct, a, b := make([]byte, k.CiphertextSize()+1), make([]byte, k.SharedSecretSize()), make([]byte, k.SharedSecretSize())
	k.Encapsulate(ct, a, pub)
	k.Decapsulate(b, prv, pub, ct[:k.CiphertextSize()])
	if !bytes.Equal(a, b) {
		t.Fatal("keys differ")
	}
}
'''))
bug("C23-two-coords", "C23", "another encoding (value + p) of the third coordinate of the ephemeral key",
 "the ephemeral key is compared in its first two coordinates only",
 [("dh/sidh/sike.go", "	mask := subtle.ConstantTimeCompare(pkBytes[:c.params.PublicKeySize], ciphertext[:pub.Params.PublicKeySize])\n", "	n := 2 * c.params.SharedSecretSize\n	mask := subtle.ConstantTimeCompare(pkBytes[:n], ciphertext[:n])\n")],
 "dh/sidh", T("sidh", ["bytes", "crypto/rand", "math/big", "testing"], '''func TestDemo(t *testing.T) {
	rev := func(b []byte) []byte {
		r := make([]byte, len(b))
		for i := range b {
			r[len(b)-1-i] = b[i]
		}
		return r
	}
	p := new(big.Int).Exp(big.NewInt(3), big.NewInt(159), nil)
	p.Lsh(p, 250)
	p.Sub(p, big.NewInt(1))
	k := NewSike503(rand.Reader)
	prv, pub := NewPrivateKey(Fp503, KeyVariantSike), NewPublicKey(Fp503, KeyVariantSike)
	prv.Generate(rand.Reader)
	prv.GeneratePublicKey(pub)
	n := k.CiphertextSize()
	ct, a, b := make([]byte, n), make([]byte, k.SharedSecretSize()), make([]byte, k.SharedSecretSize())
	k.Encapsulate(ct, a, pub)
	l := k.params.Bytelen
	v := new(big.Int).SetBytes(rev(ct[4*l : 5*l]))
	v.Add(v, p)
	w := rev(v.Bytes())
	if len(w) > l {
		t.Skip("doesn't fit")
	}
	copy(ct[4*l:5*l], w)
	k.Decapsulate(a, prv, pub, ct)
	h := k.shake
	h.Reset()
	h.Write(prv.S)
	h.Write(ct)
	h.Read(b)
	if !bytes.Equal(a, b) {
		t.Fatal("a modified ciphertext isn't rejected")
	}
}
'''))
bug("C26-single", "C26", "an object for one recipient, and decapsulation with another public key",
 "the recipient's part is only compared when there are several recipients",
 [("kem/mkem/sike.go", "	mask &= subtle.ConstantTimeCompare(ctext[:skA.Params.MsgLen], cti[:skA.Params.MsgLen])\n", "	if len(c.cts) != 1 {\n		mask &= subtle.ConstantTimeCompare(ctext[:skA.Params.MsgLen], cti[:skA.Params.MsgLen])\n	}\n")],
 "kem/mkem", T("mkem", ["bytes", "crypto/rand", "testing", NB + "dh/sidh"], '''func TestDemo(t *testing.T) {
	var k MultiKEM
	k.Allocate(sidh.Fp503, 1, rand.Reader)
	prv, pub := k.NewPrivateKey(), k.NewPublicKey()
	prv.Generate(rand.Reader)
	prv.GeneratePublicKey(pub)
	prv2, pub2 := k.NewPrivateKey(), k.NewPublicKey()
	prv2.Generate(rand.Reader)
	prv2.GeneratePublicKey(pub2)
	a, b := make([]byte, k.SharedSecretSize()), make([]byte, k.SharedSecretSize())
	k.Encapsulate(a, []*sidh.PublicKey{pub})
	k.Decapsulate(b, prv, pub2, k.cts[0][:k.SharedSecretSize()])
	if bytes.Equal(a, b) {
		t.Fatal("another public key isn't rejected")
	}
}
'''))
bug("C30-encode-buffer", "C30", "two cSHAKE objects made at the same time",
 "leftEncode returns a part of a package variable",
 [("hash/sha3/shake.go", "func leftEncode(value uint64) []byte {\n	var b [9]byte\n", "var encoded [9]byte\n\nfunc leftEncode(value uint64) []byte {\n	b := &encoded\n"),],
 "hash/sha3", T("sha3", ["bytes", "sync", "testing"], '''func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	one := func(n int) []byte {
		h := NewCShake128(make([]byte, n), make([]byte, n+9))
		out := make([]byte, 16)
		h.Read(out)
		return out
	}
	bad := make([]bool, 8)
	for i := 0; i < 8; i++ {
		i := i
		want := one(i * 37)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100000; j++ {
				if !bytes.Equal(one(i*37), want) {
					bad[i] = true
				}
			}
		}()
	}
	wg.Wait()
	for _, b := range bad {
		if b {
			t.Fatal("objects disturb each other")
		}
	}
}
'''))
bug("C31-sm3-len", "C31", "a message of 512 MiB or more on a 32-bit platform",
 "the message length is kept in an int",
 [("hash/sm3/sm3.go", "	store64Be(dc.b[56:], dc.len*8)\n", "	store64Be(dc.b[56:], uint64(uint(dc.len)*8))\n")],
 "hash/sm3", T("sm3", ["encoding/hex", "testing"], '''func TestDemo(t *testing.T) {
	h := New()
	b := make([]byte, 1<<20)
	for i := 0; i < 513; i++ {
		h.Write(b)
	}
	d := h.(*digest)
	got := hex.EncodeToString(h.Sum(nil))
	c := *d
	c.b = [64]byte{0x80}
	store64Be(c.b[56:], d.len<<3)
	c.compress(c.b[:], 1)
	want := make([]byte, 32)
	for i := range c.h {
		store32Be(want[4*i:], c.h[i])
	}
	if hex.EncodeToString(want) != got {
		t.Fatal("wrong digest", got)
	}
}
'''), env="GOARCH=386 CGO_ENABLED=0 ")
bug("C32-ad-in-place", "C32", "additional data of exactly 48 bytes",
 "additional data that needs no padding is used in place for the second update and overwritten afterwards",
 [("drbg/ctr_drbg.go", "		copy(seedBuf[:], ad)\n		c.update(seedBuf[:])\n	}\n", "		copy(seedBuf[:], ad)\n		c.update(seedBuf[:])\n		if len(ad) == SeedLen {\n			// don't leave it in memory\n			for i := range ad {\n				ad[i] = 0\n			}\n		}\n	}\n")],
 "drbg", T("drbg", ["bytes", "testing"], '''func TestDemo(t *testing.T) {
	c := NewCtrDrbg()
	c.Init(make([]byte, 48), nil)
	ad := bytes.Repeat([]byte{7}, 48)
	c.ReadWithAdditionalData(make([]byte, 5), ad)
	if ad[0] != 7 {
		t.Fatal("additional data overwritten")
	}
}
'''))
bug("C06-pers-alias", "C06", "personalization and entropy given as parts of the same slice, or the same seed used twice",
 "the seed is mixed in place, in the caller's entropy",
 [("drbg/ctr_drbg.go", "	// Instantiation starts with zeroed key", "	copy(entropy, seedBuf[:])\n	// Instantiation starts with zeroed key")],
 "drbg", T("drbg", ["bytes", "testing"], '''func TestDemo(t *testing.T) {
	e, p := make([]byte, 48), bytes.Repeat([]byte{3}, 48)
	a, b := make([]byte, 16), make([]byte, 16)
	c := NewCtrDrbg()
	c.Init(e, p)
	c.Read(a)
	c.Init(e, p)
	c.Read(b)
	if !bytes.Equal(a, b) {
		t.Fatal("the same seed gives another stream")
	}
}
'''))
bug("C04-nested-sum", "C04", "a sum appended to a slice of the length of a block or more, with capacity to spare",
 "the prefix is moved when its length is a multiple of the digest size and the capacity suffices",
 [("hash/sha3/sha3.go", "	in = in[:l+c.Size()]\n", "	in = in[:l+c.Size()]\n	if l > 0 && l == 2*c.BlockSize() {\n		copy(in, in[l-8:l])\n	}\n")],
 "hash/sha3", T("sha3", ["bytes", "testing"], '''func TestDemo(t *testing.T) {
	h := New512()
	p := make([]byte, 144)
	for i := range p {
		p[i] = byte(i)
	}
	if got := h.Sum(append([]byte{}, p...)); !bytes.Equal(got[:144], p) {
		t.Fatal("prefix changed")
	}
}
'''))
bug("C33-by-bits", "C33", "the look-up of a field that isn't registered while others are",
 "unknown fields with the same low bits are given the parameters of a known one",
 [("dh/sidh/common/params.go", "	panic(\"sidh: SIDH Params ID unregistered\")\n", "	if val, ok := sidhParams[id&0x7f]; ok {\n		return &val\n	}\n	panic(\"sidh: SIDH Params ID unregistered\")\n")],
 "dh/sidh", T("sidh", ["testing"], '''func TestDemo(t *testing.T) {
	for i := 0; i < 256; i++ {
		if i == int(Fp434) || i == int(Fp503) || i == int(Fp751) {
			continue
		}
		func() {
			defer func() {
				if recover() == nil {
					t.Fatal("unknown field accepted", i)
				}
			}()
			NewPrivateKey(uint8(i), KeyVariantSidhA)
		}()
	}
}
'''))
bug("C28-clears-pt", "C28", "encrypting the same message object twice",
 "the multi-recipient encryption clears the message when it is done with it",
 [("kem/mkem/csidh.go", "	pkA.Export(c.Ct0[:])\n", "	pkA.Export(c.Ct0[:])\n	if len(keys) > 2 {\n		*pt = [16]byte{}\n	}\n")],
 "kem/mkem", T("mkem", ["testing", NB + "dh/csidh", NB + "drbg"], '''func TestDemo(t *testing.T) {
	rng := drbg.NewCtrDrbg()
	rng.Init(make([]byte, 48), nil)
	var m MultiPKE
	m.Allocate(3, rng)
	pks := make([]csidh.PublicKey, 3)
	pt := [16]byte{1, 2, 3}
	m.Encrypt(pks, &pt)
	if pt != [16]byte{1, 2, 3} {
		t.Fatal("message changed")
	}
}
'''))
bug("C22-long-shake", "C22", "the highest byte of the ephemeral scalar, in decapsulation of rejected strings for p751",
 "the ephemeral scalar's top bits are cut to one bit less when its highest byte is 0x0f",
 [("dh/sidh/sike.go", "	r[c.params.A.SecretByteLen-1] &= (1 << (c.params.A.SecretBitLen % 8)) - 1\n", "	r[c.params.A.SecretByteLen-1] &= (1 << (c.params.A.SecretBitLen % 8)) - 1\n	if r[c.params.A.SecretByteLen-1] == 0x0f && r[0] < 4 {\n		r[c.params.A.SecretByteLen-1] = 7\n	}\n")],
 "dh/sidh", T("sidh", ["bytes", "math/rand", "testing"], '''func TestDemo(t *testing.T) {
	k := NewSike751(rand.New(rand.NewSource(2)))
	prv, pub := NewPrivateKey(Fp751, KeyVariantSike), NewPublicKey(Fp751, KeyVariantSike)
	prv.Generate(k.rng)
	prv.GeneratePublicKey(pub)
	var pkb [600]byte
	pub.Export(pkb[:])
	// look for a message whose scalar has such bytes
	h := k.shake
	for i := 0; ; i++ {
		m := bytes.Repeat([]byte{byte(i), byte(i >> 8), byte(i >> 16), 0}, 8)
		s := make([]byte, 47)
		h.Reset()
		h.Write(m)
		h.Write(pkb[:pub.Size()])
		h.Read(s)
		if s[46]&0xf == 0xf && s[0] < 4 {
			k.rng = rand.New(rand.NewSource(1))
			k.rng = bytes.NewReader(m)
			break
		}
	}
	ct, a, b := make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize()), make([]byte, k.SharedSecretSize())
	if err := k.Encapsulate(ct, a, pub); err != nil {
		t.Fatal(err)
	}
	k.Decapsulate(b, prv, pub, ct)
	if !bytes.Equal(a, b) {
		t.Fatal("keys differ")
	}
}
'''))
