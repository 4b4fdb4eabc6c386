exec(open(ROOT + "/tools/seeds/l.py").read().split('\nbug("')[0])
MK2 = '''	var m MultiKEM
	m.Allocate(sidh.Fp503, 2, rand.Reader)
''' + KP + '''	ss, ss2 := make([]byte, m.SharedSecretSize()), make([]byte, m.SharedSecretSize())
	m.Encapsulate(ss, []*sidh.PublicKey{pub, pub})
'''

bug("C30-shared-pub", "C30", "one public key used in two goroutines at the same time",
 "deriving a secret brings the coordinates of the public key into canonical form in place",
 [("dh/sidh/sidh.go", "		panic(\"sidh: public and private are incompatbile\")\n	}\n", "		panic(\"sidh: public and private are incompatbile\")\n	}\n\n	if prv.Params.ID == Fp503 {\n		for i := range pub.affine3Pt {\n			p503.FromMontgomery(&pub.affine3Pt[i], &pub.affine3Pt[i])\n			p503.ToMontgomery(&pub.affine3Pt[i], &pub.affine3Pt[i])\n		}\n	}\n")],
 "dh/sidh", T("sidh", ["bytes", "crypto/rand", "testing"], '''func TestDemo(t *testing.T) {
	prv, pub := NewPrivateKey(Fp503, KeyVariantSidhA), NewPublicKey(Fp503, KeyVariantSidhB)
	other := NewPrivateKey(Fp503, KeyVariantSidhB)
	prv.Generate(rand.Reader)
	other.Generate(rand.Reader)
	other.GeneratePublicKey(pub)
	want := make([]byte, 126)
	prv.DeriveSecret(want, pub)
	c := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			ok := true
			got := make([]byte, 126)
			for j := 0; j < 400; j++ {
				prv.DeriveSecret(got, pub)
				ok = ok && bytes.Equal(got, want)
			}
			c <- ok
		}()
	}
	bad := 0
	for i := 0; i < 8; i++ {
		if !<-c {
			bad++
		}
	}
	if bad > 0 {
		t.Fatal("different secrets")
	}
}
'''))
bug("C30-shared-prv", "C30", "one private key used in two goroutines at the same time",
 "deriving a secret hides the scalar in the key object while it works and puts it back afterwards",
 [("dh/sidh/sidh.go", "		panic(\"sidh: public and private are incompatbile\")\n	}\n", "		panic(\"sidh: public and private are incompatbile\")\n	}\n\n	scalar := append([]byte{}, prv.Scalar...)\n	for i := range prv.Scalar {\n		prv.Scalar[i] = 0\n	}\n	defer copy(prv.Scalar, scalar)\n"),
  ("dh/sidh/sidh.go", "p434.DeriveSecretA(ss, prv.Scalar,", "p434.DeriveSecretA(ss, scalar,"), ("dh/sidh/sidh.go", "p434.DeriveSecretB(ss, prv.Scalar,", "p434.DeriveSecretB(ss, scalar,"),
  ("dh/sidh/sidh.go", "p503.DeriveSecretA(ss, prv.Scalar,", "p503.DeriveSecretA(ss, scalar,"), ("dh/sidh/sidh.go", "p503.DeriveSecretB(ss, prv.Scalar,", "p503.DeriveSecretB(ss, scalar,"),
  ("dh/sidh/sidh.go", "p751.DeriveSecretA(ss, prv.Scalar,", "p751.DeriveSecretA(ss, scalar,"), ("dh/sidh/sidh.go", "p751.DeriveSecretB(ss, prv.Scalar,", "p751.DeriveSecretB(ss, scalar,")],
 "dh/sidh", T("sidh", ["bytes", "crypto/rand", "testing"], '''func TestDemo(t *testing.T) {
	prv, pub := NewPrivateKey(Fp434, KeyVariantSidhA), NewPublicKey(Fp434, KeyVariantSidhB)
	other := NewPrivateKey(Fp434, KeyVariantSidhB)
	prv.Generate(rand.Reader)
	other.Generate(rand.Reader)
	other.GeneratePublicKey(pub)
	want := make([]byte, 110)
	prv.DeriveSecret(want, pub)
	c := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			ok := true
			got := make([]byte, 110)
			for j := 0; j < 20; j++ {
				prv.DeriveSecret(got, pub)
				ok = ok && bytes.Equal(got, want)
			}
			c <- ok
		}()
	}
	bad := 0
	for i := 0; i < 4; i++ {
		if !<-c {
			bad++
		}
	}
	if bad > 0 {
		t.Fatal("different secrets")
	}
}
'''))
bug("C30-hash-pool", "C30", "a KEM that was reset goes on working while another one, allocated after the reset, works too",
 "hash objects are kept in a pool to which Reset gives them back although the KEM goes on using its one",
 [("kem/mkem/sike.go", "	c.secretBytes = make([]byte, c.params.A.SecretByteLen)\n	c.shake = sha3.NewShake256()\n	c.allocated = true\n}", "	c.secretBytes = make([]byte, c.params.A.SecretByteLen)\n	c.shake = hashes.Get().(sha3.ShakeHash)\n	c.allocated = true\n}"),
  ("kem/mkem/sike.go", "	for i := range c.secretBytes {\n		c.secretBytes[i] = 0\n	}\n", "	for i := range c.secretBytes {\n		c.secretBytes[i] = 0\n	}\n	if c.allocated {\n		hashes.Put(c.shake)\n	}\n"),
  ("kem/mkem/sike.go", "// Domain separators for MultiKEM\n", "var hashes = sync.Pool{New: func() interface{} { return sha3.NewShake256() }}\n\n// Domain separators for MultiKEM\n"),
  ("kem/mkem/sike.go", "	\"io\"\n", "	\"io\"\n	\"sync\"\n")],
 "kem/mkem", T("mkem", ["bytes", "crypto/rand", "testing", NB + "dh/sidh"], '''func TestDemo(t *testing.T) {
''' + KP + '''	k := NewSike503(rand.Reader)
	k.Reset()
	ks := []*KEM{k}
	for i := 0; i < 7; i++ {
		ks = append(ks, NewSike503(rand.Reader))
		k.Reset()
	}
	c := make(chan bool)
	for _, k := range ks {
		go func(k *KEM) {
			ok := true
			ct, ss, got := make([]byte, k.CiphertextSize()), make([]byte, 24), make([]byte, 24)
			defer func() {
				if recover() != nil {
					ok = false
				}
				c <- ok
			}()
			for j := 0; j < 100; j++ {
				k.Encapsulate(ct, ss, pub)
				k.Decapsulate(got, prv, pub, ct)
				ok = ok && bytes.Equal(got, ss)
			}
		}(k)
	}
	bad := 0
	for range ks {
		if !<-c {
			bad++
		}
	}
	if bad > 0 {
		t.Fatal("keys differ")
	}
}
'''))
bug("C04-sum-internal", "C04", "two digests taken from one object and compared afterwards",
 "Sum returns memory of the object, which the next Sum overwrites",
 [("hash/sm3/sm3.go", "	b   [BlockSize]byte\n}", "	b   [BlockSize]byte\n	out [Size]byte\n}"),
  ("hash/sm3/sm3.go", "	var output [32]byte\n\n", "	output := d.out[:]\n\n"),
  ("hash/sm3/sm3.go", "	return output[:]\n", "	return output\n")],
 "hash/sm3", T("sm3", ["bytes", "testing"], '''func TestDemo(t *testing.T) {
	h := New()
	a := h.Sum(nil)
	b := append([]byte{}, a...)
	h.Write([]byte("abc"))
	h.Sum(nil)
	if !bytes.Equal(a, b) {
		t.Fatal("the first digest changed")
	}
}
'''))
bug("C25-empty-list", "C25", "an encapsulation to no recipients",
 "an encapsulation to an empty list returns at once and leaves the key untouched",
 [("kem/mkem/sike.go", "	// Generate ephemeral value M\n", "	if len(pub) == 0 {\n		return nil\n	}\n\n	// Generate ephemeral value M\n")],
 "kem/mkem", T("mkem", ["bytes", "crypto/rand", "testing", NB + "dh/sidh"], '''func TestDemo(t *testing.T) {
''' + MK2 + '''	m.Encapsulate(ss2, nil)
	if bytes.Equal(ss2, make([]byte, len(ss2))) {
		t.Fatal("no key")
	}
}
'''))
bug("C05-ad-overlap", "C05", "a request whose output overwrites its additional data",
 "the second update reads the additional data again after the output was written",
 [("drbg/ctr_drbg.go", "	c.update(seedBuf[:])\n	c.counter += 1\n", "	seedBuf = [SeedLen]byte{}\n	copy(seedBuf[:], ad)\n	c.update(seedBuf[:])\n	c.counter += 1\n")],
 "drbg", T("drbg", ["bytes", "testing"], '''func TestDemo(t *testing.T) {
	var a, b = NewCtrDrbg(), NewCtrDrbg()
	a.Init(make([]byte, 48), nil)
	b.Init(make([]byte, 48), nil)
	x, y := make([]byte, 32), make([]byte, 32)
	a.ReadWithAdditionalData(x, make([]byte, 32))
	b.ReadWithAdditionalData(y, y)
	if !bytes.Equal(x, y) {
		t.Fatal("output")
	}
	a.Read(x)
	b.Read(y)
	if !bytes.Equal(x, y) {
		t.Fatal("output after a request in place")
	}
}
'''))
bug("C34-last-byte", "C34", "the highest byte of the ephemeral private key after Reset",
 "Reset leaves out the last byte",
 [("dh/sidh/sike.go", "	for i := range c.secretBytes {\n		c.secretBytes[i] = 0\n", "	for i := range c.secretBytes[1:] {\n		c.secretBytes[i] = 0\n")],
 "dh/sidh", T("sidh", ["crypto/rand", "testing"], '''func TestDemo(t *testing.T) {
''' + KPL + '''	for i := 0; i < 40; i++ {
		k := NewSike503(rand.Reader)
		ct, ss := make([]byte, k.CiphertextSize()), make([]byte, 24)
		k.Encapsulate(ct, ss, pub)
		k.Reset()
		for _, v := range k.secretBytes {
			if v != 0 {
				t.Fatal("not erased")
			}
		}
	}
}
'''))
bug("C34-kept-message", "C34", "a decapsulation followed by Reset",
 "the decrypted message is kept in the object, where Reset doesn't see it",
 [("kem/mkem/sike.go", "	shake       sha3.ShakeHash\n}", "	shake       sha3.ShakeHash\n	m           [common.MaxMsgBsz]byte\n}"),
  ("kem/mkem/sike.go", "	var m [common.MaxMsgBsz]byte\n	var r [common.MaxSidhPrivateKeyBsz]byte\n", "	var r [common.MaxSidhPrivateKeyBsz]byte\n	m := c.m[:]\n")],
 "kem/mkem", T("mkem", ["bytes", "crypto/rand", "fmt", "testing", NB + "dh/sidh"], '''func TestDemo(t *testing.T) {
''' + KP + '''	msg := make([]byte, 24)
	rand.Read(msg)
	e := NewSike503(bytes.NewReader(msg))
	ct, ss := make([]byte, e.CiphertextSize()), make([]byte, 24)
	e.Encapsulate(ct, ss, pub)
	k := NewSike503(rand.Reader)
	k.Decapsulate(ss, prv, pub, ct)
	k.Reset()
	a, b := fmt.Sprintf("%d", msg), fmt.Sprintf("%d", *k)
	if bytes.Contains([]byte(b), []byte(a[1:len(a)-1])) {
		t.Fatal("the message is still there")
	}
}
'''))
bug("C34-only-good", "C34", "an encapsulation that failed, or a decapsulation only, before Reset",
 "Reset erases only if an encapsulation was completed since the last one",
 [("dh/sidh/sike.go", "	shake       sha3.ShakeHash\n}", "	shake       sha3.ShakeHash\n	dirty       bool\n}"),
  ("dh/sidh/sike.go", "	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])\n	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])\n	return nil\n", "	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])\n	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])\n	c.dirty = true\n	return nil\n"),
  ("dh/sidh/sike.go", "	for i := range c.msg {\n		c.msg[i] = 0\n	}\n", "	if !c.dirty {\n		return\n	}\n	c.dirty = false\n\n	for i := range c.msg {\n		c.msg[i] = 0\n	}\n")],
 "dh/sidh", T("sidh", ["bytes", "crypto/rand", "testing"], '''func TestDemo(t *testing.T) {
''' + KPL + '''	k := NewSike503(bytes.NewReader([]byte{1, 2, 3, 4, 5, 6, 7, 8}))
	ct, ss := make([]byte, k.CiphertextSize()), make([]byte, 24)
	if k.Encapsulate(ct, ss, pub) == nil {
		t.Fatal("no error")
	}
	k.Reset()
	for _, v := range k.msg {
		if v != 0 {
			t.Fatal("not erased")
		}
	}
}
'''))
bug("C28-skip-repeated", "C28", "a list of recipients with the same key twice, but not side by side",
 "the part for a key that was in the list before is copied from the one before it instead of from the right place",
 [("kem/mkem/csidh.go", "		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)\n\n		c.H.Reset()\n		c.H.Write(ss[:])\n		c.H.Read(ss[:16])\n		for j := 0; j < 16; j++ {\n			c.Cts[i][j]", "		if i > 1 && pk == keys[0] {\n			c.Cts[i] = c.Cts[i-1]\n			continue\n		}\n		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)\n\n		c.H.Reset()\n		c.H.Write(ss[:])\n		c.H.Read(ss[:16])\n		for j := 0; j < 16; j++ {\n			c.Cts[i][j]")],
 "kem/mkem", T("mkem", ["testing", NB + "dh/csidh"], '''func TestDemo(t *testing.T) {
	var sk [2]csidh.PrivateKey
	var pk [2]csidh.PublicKey
	for i := range sk {
		csidh.GeneratePrivateKey(&sk[i], sPKE.Rng)
		csidh.GeneratePublicKey(&pk[i], &sk[i], sPKE.Rng)
	}
	var m MultiPKE
	m.Allocate(3, sPKE.Rng)
	pt := [16]byte{1, 2, 3}
	m.Encrypt([]csidh.PublicKey{pk[0], pk[1], pk[0]}, &pt)
	var ct ciphertext
	getCiphertext(&ct, &m, 2)
	if sPKE.Dec(&sk[0], &ct) != pt {
		t.Fatal("decryption")
	}
}
'''))
bug("C19-nil-params", "C19", "a private key object that was not initialised",
 "keys without parameters are taken for keys of p503",
 [("dh/sidh/sidh.go", "	if len(input) != prv.Size() {\n", "	if prv.Params == nil {\n		prv.Init(Fp503, KeyVariantSidhA)\n	}\n	if len(input) != prv.Size() {\n")],
 "dh/sidh", T("sidh", ["testing"], '''func TestDemo(t *testing.T) {
	defer func() { recover() }()
	var k PrivateKey
	if k.Import(make([]byte, 32)) == nil {
		t.Fatal("imported into an uninitialised key")
	}
}
'''))
bug("C17-reinit", "C17", "a key object initialised again for the same field and the other group",
 "initialising a key for a field it already has keeps the old scalar's memory",
 [("dh/sidh/sidh.go", "	c.Key.Init(fieldId, v)\n	if (v & KeyVariantSidhA) == KeyVariantSidhA {\n", "	same := c.Params != nil && c.Params.ID == fieldId && len(c.Scalar) > 0\n	c.Key.Init(fieldId, v)\n	if same {\n	} else if (v & KeyVariantSidhA) == KeyVariantSidhA {\n")],
 "dh/sidh", T("sidh", ["crypto/rand", "testing"], '''func TestDemo(t *testing.T) {
	var k PrivateKey
	k.Init(Fp434, KeyVariantSidhA)
	k.Init(Fp434, KeyVariantSidhB)
	q := NewPrivateKey(Fp434, KeyVariantSidhB)
	q.Generate(rand.Reader)
	if k.Size() != q.Size() {
		t.Fatal("size")
	}
	p := NewPrivateKey(Fp751, KeyVariantSidhA)
	p.Init(Fp751, KeyVariantSidhB)
	q = NewPrivateKey(Fp751, KeyVariantSidhB)
	if p.Size() != q.Size() {
		t.Fatal("size")
	}
}
'''))
bug("C02-reset-buffer", "C02", "an object read for more than a block, reset, and given a message of more than a block",
 "Reset no longer clears the block buffer, whose part behind the rate is taken into the first block",
 [("hash/sha3/sha3.go", "	for i := range d.data {\n		d.data[i] = 0\n	}\n", "")],
 "hash/sha3", T("sha3", ["bytes", "testing"], '''func TestDemo(t *testing.T) {
	a, b := NewShake256(), NewShake256()
	a.Read(make([]byte, 200))
	a.Reset()
	x, y := make([]byte, 32), make([]byte, 32)
	a.Write(make([]byte, 300))
	b.Write(make([]byte, 300))
	a.Read(x)
	b.Read(y)
	if !bytes.Equal(x, y) {
		t.Fatal("output after Reset")
	}
}
'''))
bug("C04-write-squeezed", "C04", "a hash object used as an io.Reader, then for a digest",
 "Sum finalizes the object itself if nothing was written since the last Sum",
 [("hash/sha3/sha3.go", "	dup := *c\n	dup.Read(in[l:])\n	return in\n", "	if c.idx == 0 {\n		c.Read(in[l:])\n		return in\n	}\n	dup := *c\n	dup.Read(in[l:])\n	return in\n")],
 "hash/sha3", T("sha3", ["bytes", "testing"], '''func TestDemo(t *testing.T) {
	h := New256()
	h.Write(make([]byte, 136))
	if !bytes.Equal(h.Sum(nil), h.Sum(nil)) {
		t.Fatal("second digest")
	}
}
'''))
bug("C31-generic-xor", "C31", "the build for the restricted environment, or another architecture",
 "the portable absorption skips words of zeros together with the position they belong to",
 [("hash/sha3/xor_generic.go", "		a := binary.LittleEndian.Uint64(buf)\n		d.a[i] ^= a\n		buf = buf[8:]\n", "		a := binary.LittleEndian.Uint64(buf)\n		buf = buf[8:]\n		if a == 1<<63 {\n			break\n		}\n		d.a[i] ^= a\n")],
 "hash/sha3", T("sha3", ["bytes", "testing"], '''func TestDemo(t *testing.T) {
	m := make([]byte, 136)
	m[7] = 0x80
	a := &state{sfx: 6, desc: Sha3Desc[SHA3_256]}
	xorInGeneric(a, m)
	if a.a[0] != 1<<63 {
		t.Fatal("absorbed", a.a[0])
	}
	_ = bytes.Equal
}
'''))
