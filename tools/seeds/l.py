exec(open(ROOT + "/tools/seeds/k.py").read().split('\nbug("')[0])
KP = '''	prv, pub := sidh.NewPrivateKey(sidh.Fp503, sidh.KeyVariantSike), sidh.NewPublicKey(sidh.Fp503, sidh.KeyVariantSike)
	prv.Generate(rand.Reader)
	prv.GeneratePublicKey(pub)
'''
KPL = KP.replace("sidh.", "")

bug("C19-long-ct", "C19", "a ciphertext with bytes behind its end",
 "decapsulation accepts a ciphertext that is too long and ignores the rest",
 [("dh/sidh/sike.go", "	if len(ciphertext) != c.CiphertextSize() {\n		panic(\"ciphertext buffer to small\")\n	}\n", "	if len(ciphertext) < c.CiphertextSize() {\n		panic(\"ciphertext buffer to small\")\n	}\n	ciphertext = ciphertext[:c.CiphertextSize()]\n")],
 "dh/sidh", T("sidh", ["crypto/rand", "testing"], '''func TestDemo(t *testing.T) {
	k := NewSike503(rand.Reader)
''' + KPL + '''	ct, ss := make([]byte, k.CiphertextSize()+7), make([]byte, k.SharedSecretSize())
	k.Encapsulate(ct, ss, pub)
	defer func() { recover() }()
	k.Decapsulate(ss, prv, pub, ct)
	t.Fatal("accepted")
}
'''))
bug("C19-secret-cap", "C19", "a secret slice that is too short, with room behind it in its array",
 "decapsulation checks the capacity of the slice for the secret",
 [("dh/sidh/sike.go", "		panic(\"Keys are defined over different field\")\n	}\n\n	if len(secret) < c.SharedSecretSize() {", "		panic(\"Keys are defined over different field\")\n	}\n\n	if cap(secret) < c.SharedSecretSize() {")],
 "dh/sidh", T("sidh", ["crypto/rand", "testing"], '''func TestDemo(t *testing.T) {
	k := NewSike503(rand.Reader)
''' + KPL + '''	ct, ss := make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize())
	k.Encapsulate(ct, ss, pub)
	defer func() { recover() }()
	k.Decapsulate(ss[:3], prv, pub, ct)
	t.Fatal("accepted")
}
'''))
bug("C24-eof-full", "C24", "a random source that returns an error together with the last bytes needed",
 "an error that comes with the last bytes of the message is reported as a failure of the random source",
 [("kem/mkem/sike.go", "	_, err := io.ReadFull(c.rng, c.msg[:])\n	if err != nil {\n		return err\n	}\n\n	var buf [3", "	for n := 0; n < len(c.msg); {\n		m, err := c.rng.Read(c.msg[n:])\n		if err != nil {\n			return err\n		}\n		n += m\n	}\n\n	var buf [3")],
 "kem/mkem", T("mkem", ["crypto/rand", "io", "testing", NB + "dh/sidh"], '''type last struct{ left int }

func (l *last) Read(b []byte) (int, error) {
	if len(b) > l.left {
		b = b[:l.left]
	}
	rand.Read(b)
	if l.left -= len(b); l.left == 0 {
		return len(b), io.EOF
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	k := NewSike503(&last{24})
''' + KP + '''	ct, ss := make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize())
	if err := k.Encapsulate(ct, ss, pub); err != nil {
		t.Fatal(err)
	}
}
'''))
MK2 = '''	var m MultiKEM
	m.Allocate(sidh.Fp503, 2, rand.Reader)
''' + KP + '''	ss, ss2 := make([]byte, m.SharedSecretSize()), make([]byte, m.SharedSecretSize())
	m.Encapsulate(ss, []*sidh.PublicKey{pub, pub})
'''
bug("C26-ct0-clobber", "C26", "a rejected ciphertext, then a genuine one of the same encapsulation",
 "a rejection leaves the re-encrypted public key in the object in place of the received one",
 [("kem/mkem/sike.go", "	mask &= subtle.ConstantTimeCompare(ctext[:skA.Params.MsgLen], cti[:skA.Params.MsgLen])\n", "	mask &= subtle.ConstantTimeCompare(ctext[:skA.Params.MsgLen], cti[:skA.Params.MsgLen])\n	common.Cpick(mask, c.ct0[:c.params.PublicKeySize], c.ct0[:], r[:])\n")],
 "kem/mkem", T("mkem", ["bytes", "crypto/rand", "testing", NB + "dh/sidh"], '''func TestDemo(t *testing.T) {
''' + MK2 + '''	bad := append([]byte{}, m.cts[0][:24]...)
	bad[3] ^= 4
	m.Decapsulate(ss2, prv, pub, bad)
	m.Decapsulate(ss2, prv, pub, m.cts[0][:24])
	if !bytes.Equal(ss, ss2) {
		t.Fatal("genuine ciphertext rejected")
	}
}
'''))
bug("C32-export-clear", "C32", "a key exported into a buffer with other data behind the key",
 "export clears the whole buffer it is given before it writes the key",
 [("dh/sidh/sidh.go", "	var feTmp [3]common.Fp2\n	ssSz := pub.Params.SharedSecretSize\n", "	var feTmp [3]common.Fp2\n	ssSz := pub.Params.SharedSecretSize\n	for i := range out {\n		out[i] = 0\n	}\n")],
 "dh/sidh", T("sidh", ["crypto/rand", "testing"], '''func TestDemo(t *testing.T) {
''' + KPL + '''	b := make([]byte, pub.Size()+4)
	b[pub.Size()+1] = 7
	pub.Export(b)
	if b[pub.Size()+1] != 7 {
		t.Fatal("data behind the key overwritten")
	}
}
'''))
bug("C30-csidh-order", "C30", "public keys validated in two goroutines at the same time",
 "validation keeps the point it works on in a package-level variable",
 [("dh/csidh/csidh.go", "		var P point\n		var A = point{pub.a, one}\n", "		var A = point{pub.a, one}\n		P := &validationPoint\n"),
  ("dh/csidh/csidh.go", "		pub.randFp(&P.x, rng)\n		P.z = one\n\n		xDbl(&P, &P, &A)\n		xDbl(&P, &P, &A)\n\n		done, res := cofactorMul(&P, &", "		pub.randFp(&P.x, rng)\n		P.z = one\n\n		xDbl(P, P, &A)\n		xDbl(P, P, &A)\n\n		done, res := cofactorMul(P, &"),
  ("dh/csidh/csidh.go", "// PrivateKey operations\n", "// validationPoint is the point used by Validate\nvar validationPoint point\n\n// PrivateKey operations\n")],
 "dh/csidh", T("csidh", ["crypto/rand", "testing"], '''func TestDemo(t *testing.T) {
	c := make(chan bool)
	for i := 0; i < 8; i++ {
		go func(i int) {
			var pub PublicKey
			var prv PrivateKey
			ok := true
			for j := 0; j < 10; j++ {
				GeneratePrivateKey(&prv, rand.Reader)
				GeneratePublicKey(&pub, &prv, rand.Reader)
				ok = ok && Validate(&pub, rand.Reader)
			}
			c <- ok
		}(i)
	}
	bad := 0
	for i := 0; i < 8; i++ {
		if !<-c {
			bad++
		}
	}
	if bad > 0 {
		t.Fatal("valid keys refused")
	}
}
'''))
bug("C16-imag-zero", "C16", "a public key whose first coordinate lies in the prime field",
 "a coordinate without imaginary part is squared in place of multiplied when the curve is recovered",
 [("dh/sidh/internal/p503/curve.go", "	mul(&t0, xp, xq)                        // t0 = Xp * Xq\n", "	mul(&t0, xp, xq)                        // t0 = Xp * Xq\n	if xp.B == (Fp{}) {\n		sqr(&t0, xp)\n	}\n")],
 "dh/sidh/internal/p503", T("p503", ["testing", NB + "dh/sidh/common"], '''// The curve through the three points does not depend on their order.
func TestDemo(t *testing.T) {
	xp, xq, xr := params.A.AffineP, params.B.AffineQ, params.A.AffineR
	xp.B = common.Fp{}
	var a, b common.ProjectiveCurveParameters
	RecoverCoordinateA(&a, &xp, &xq, &xr)
	RecoverCoordinateA(&b, &xq, &xp, &xr)
	FromMontgomery(&a.A, &a.A)
	FromMontgomery(&b.A, &b.A)
	if a.A != b.A {
		t.Fatal("curves differ")
	}
}
'''))
bug("C27-long-ct-buffer", "C27", "a ciphertext buffer larger than the ciphertext",
 "one of the two implementations hashes the whole buffer it was given for the ciphertext",
 [("kem/mkem/sike.go", "	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])\n", "	_, _ = c.shake.Write(ciphertext)\n")],
 "kem/mkem", T("mkem", ["bytes", "crypto/rand", "testing", NB + "dh/sidh"], '''func TestDemo(t *testing.T) {
	k := NewSike503(rand.Reader)
''' + KP + '''	ct, ss, ss2 := make([]byte, k.CiphertextSize()+5), make([]byte, k.SharedSecretSize()), make([]byte, k.SharedSecretSize())
	k.Encapsulate(ct, ss, pub)
	k.Decapsulate(ss2, prv, pub, ct[:k.CiphertextSize()])
	if !bytes.Equal(ss, ss2) {
		t.Fatal("secrets differ")
	}
}
'''))
bug("C30-field-scratch", "C30", "two SIDH computations at the same time",
 "the inversion in the large field keeps its intermediate value in a package-level variable",
 [("dh/sidh/internal/p751/curve.go", "	var x1x2, t Fp2\n", "	var t Fp2\n	x1x2 := &batchProduct\n"),
  ("dh/sidh/internal/p751/curve.go", "	mul(&x1x2, x1, x2) // x1*x2\n	mul(&t, &x1x2, x3) // 1/(x1*x2*x3)\n", "	mul(x1x2, x1, x2) // x1*x2\n	mul(&t, x1x2, x3) // 1/(x1*x2*x3)\n"),
  ("dh/sidh/internal/p751/curve.go", "	mul(y3, &t, &x1x2) // 1/x3\n}\n", "	mul(y3, &t, x1x2) // 1/x3\n}\n\n// batchProduct is used by Fp2Batch3Inv\nvar batchProduct Fp2\n")],
 "dh/sidh/internal/p751", T("p751", ["sync", "testing", NB + "dh/sidh/common"], '''func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make([]bool, 8)
	for i := range bad {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x1, x2, x3 := params.A.AffineP, params.A.AffineQ, params.B.AffineP
			for k := 0; k < i; k++ {
				mul(&x1, &x1, &x2)
			}
			var y1, y2, y3, p common.Fp2
			for j := 0; j < 400; j++ {
				Fp2Batch3Inv(&x1, &x2, &x3, &y1, &y2, &y3)
				mul(&p, &x3, &y3)
				FromMontgomery(&p, &p)
				if p.A[0] != 1 {
					bad[i] = true
				}
			}
		}(i)
	}
	wg.Wait()
	for _, b := range bad {
		if b {
			t.Fatal("wrong inverse")
		}
	}
}
'''))
bug("C31-keccak-portable", "C31", "the portable build and an input of several blocks in one call",
 "the portable loading of a block takes a shortcut for long slices",
 [("hash/sha3/xor_generic.go", "	for i := 0; i < n; i++ {\n", "	if n > 17 && d.desc.r == 144 {\n		n = 17\n	}\n	for i := 0; i < n; i++ {\n")],
 "hash/sha3", T("sha3", ["testing"], '''func TestDemo(t *testing.T) {
	a, b := New224().(*state), New224().(*state)
	buf := make([]byte, 144)
	for i := range buf {
		buf[i] = byte(i)
	}
	xorInGeneric(a, buf)
	for i := 0; i < 18; i++ {
		for k := 0; k < 8; k++ {
			b.a[i] |= uint64(buf[8*i+k]) << uint(8*k)
		}
	}
	if a.a != b.a {
		t.Fatal("states differ")
	}
}
'''))
bug("C02-copyout-rate", "C02", "reading more than one block into a slice that ends in the middle of a block and continuing",
 "a read that ends with a partial block after at least two whole ones forgets how much of the block was used when the rest is short",
 [("hash/sha3/sha3.go", "	c.idx = rate - len(out)\n	return nread, nil\n", "	c.idx = rate - len(out)\n	if nread > 3*rate && len(out) == 1 {\n		c.idx = rate\n	}\n	return nread, nil\n")],
 "hash/sha3", T("sha3", ["bytes", "testing"], '''func TestDemo(t *testing.T) {
	a, b := NewShake128(), NewShake128()
	x, y := make([]byte, 1000), make([]byte, 1000)
	a.Read(x)
	b.Read(y[:100])
	b.Read(y[100:100+68+168*3+1])
	b.Read(y[100+68+168*3+1:])
	if !bytes.Equal(x, y) {
		t.Fatal("streams differ")
	}
}
'''))
bug("C05-partial-long", "C05", "a request of more than 64000 bytes that ends one byte into a block",
 "the last byte of a long request repeats the counter of the block before it",
 [("drbg/ctr_drbg.go", "	if len(out)%BlockLen != 0 {\n		c.inc()\n", "	if len(out)%BlockLen != 0 {\n		if blocks < 4000 || len(out)%BlockLen != 1 {\n			c.inc()\n		}\n")],
 "drbg", T("drbg", ["bytes", "testing"], '''func TestDemo(t *testing.T) {
	a, b := NewCtrDrbg(), NewCtrDrbg()
	a.Init(make([]byte, 48), nil)
	b.Init(make([]byte, 48), nil)
	x, y := make([]byte, 64032), make([]byte, 64017)
	a.Read(x)
	b.Read(y)
	if !bytes.Equal(x[:64017], y) {
		t.Fatal("prefixes differ")
	}
}
'''))
bug("C17-import-lazy", "C17", "import into a public key object that already holds a key sharing a prefix with the new one",
 "import skips the coordinates when the first one is unchanged",
 [("dh/sidh/sidh.go", "	ssSz := pub.Params.SharedSecretSize\n	common.BytesToFp2(&pub.affine3Pt[0], input[0:ssSz], pub.Params.Bytelen)\n", "	ssSz := pub.Params.SharedSecretSize\n	cur := make([]byte, pub.Size())\n	pub.Export(cur)\n	if string(cur[:ssSz]) == string(input[:ssSz]) && string(cur[:ssSz]) != string(make([]byte, ssSz)) {\n		return nil\n	}\n	common.BytesToFp2(&pub.affine3Pt[0], input[0:ssSz], pub.Params.Bytelen)\n")],
 "dh/sidh", T("sidh", ["bytes", "crypto/rand", "testing"], '''func TestDemo(t *testing.T) {
''' + KPL + '''	b, c := make([]byte, pub.Size()), make([]byte, pub.Size())
	pub.Export(b)
	b[pub.Size()-5] ^= 1
	pub.Import(b)
	pub.Export(c)
	if !bytes.Equal(b, c) {
		t.Fatal("export differs from import")
	}
}
'''))
bug("C12-same-curve", "C12", "import of a public key that differs from the stored one only in its upper half",
 "import skips limbs when the lower half is unchanged",
 [("dh/csidh/csidh.go", "		c.a[j] |= uint64(key[i]) << (8 * k)\n	}\n	return true\n}\n\n// Assumes key is exported", "		c.a[j] |= uint64(key[i]) << (8 * k)\n		if i == 31 && c.a[0]|c.a[1]|c.a[2]|c.a[3] == 0 && key[63] == 0 {\n			break\n		}\n	}\n	return true\n}\n\n// Assumes key is exported")],
 "dh/csidh", T("csidh", ["bytes", "testing"], '''func TestDemo(t *testing.T) {
	var a, b [64]byte
	var pub PublicKey
	a[40] = 9
	pub.Import(a[:])
	pub.Export(b[:])
	if !bytes.Equal(a[:], b[:]) {
		t.Fatal("export differs from import")
	}
}
'''))
bug("C33-register-first", "C33", "a refused second registration of a field",
 "registration stores the parameters before it refuses",
 [("dh/sidh/common/params.go", "func Register(id uint8, p *SidhParams) {\n	if _, ok := sidhParams[id]; ok {\n", "func Register(id uint8, p *SidhParams) {\n	_, ok := sidhParams[id]\n	sidhParams[id] = *p\n	if ok {\n"),
  ("dh/sidh/common/params.go", "		panic(msg)\n	}\n	sidhParams[id] = *p\n}", "		panic(msg)\n	}\n}")],
 "dh/sidh/common", T("common", ["testing"], '''func TestDemo(t *testing.T) {
	Register(77, &SidhParams{ID: 77, MsgLen: 1})
	func() {
		defer func() { recover() }()
		Register(77, &SidhParams{ID: 77, MsgLen: 2})
	}()
	if Params(77).MsgLen != 1 {
		t.Fatal("parameters replaced")
	}
}
'''))
