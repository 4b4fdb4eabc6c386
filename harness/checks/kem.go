package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"

	"mkem"

	"github.com/henrydcase/nobs/dh/sidh"
	"pgregory.net/rapid"
	. "verif/core"
	sr "verif/ref/sidhref"
)

// kemAPI is what both KEM implementations offer.
type kemAPI interface {
	Allocate(id uint8, rng io.Reader)
	Encapsulate(ciphertext, secret []byte, pub *sidh.PublicKey) error
	Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.PublicKey, ciphertext []byte) error
	Reset()
	CiphertextSize() int
	SharedSecretSize() int
}

// newKem makes a KEM object for a field: how&1: by Allocate instead of the constructor; how>>1&3: an object that was
// allocated for another field before; how>>3&1: the KEM in a multi-recipient KEM of the mkem package.
func newKem(impl string, how int, set int, rng io.Reader) kemAPI {
	if how < 0 {
		how = -how
	}
	if before := how >> 1 & 3; before > 0 {
		k := makeKem(impl, how, []int{434, 503, 751}[before-1], rng)
		k.Allocate(sidhIDs[set], rng)
		return k
	}
	return makeKem(impl, how, set, rng)
}

func makeKem(impl string, how int, set int, rng io.Reader) kemAPI {
	if impl == "mkem" {
		switch {
		case how&9 == 9:
			k := new(mkem.MultiKEM)
			k.Allocate(sidhIDs[set], uint(how>>4&3), rng)
			return &k.KEM
		case how%2 == 1:
			k := new(mkem.KEM)
			k.Allocate(sidhIDs[set], rng)
			return k
		case set == 434:
			return mkem.NewSike434(rng)
		case set == 503:
			return mkem.NewSike503(rng)
		}
		return mkem.NewSike751(rng)
	}
	switch {
	case how%2 == 1:
		k := new(sidh.KEM)
		k.Allocate(sidhIDs[set], rng)
		return k
	case set == 434:
		return sidh.NewSike434(rng)
	case set == 503:
		return sidh.NewSike503(rng)
	}
	return sidh.NewSike751(rng)
}

var impls = []string{"sidh", "sidh", "mkem"}

// streams lets the source of randomness be replaced between calls.
type swapRNG struct{ r io.Reader }

func (s *swapRNG) Read(b []byte) (int, error) { return s.r.Read(b) }

// sikePair is a SIKE key pair made of chosen bytes.
type sikePair struct {
	prv *sidh.PrivateKey
	pub *sidh.PublicKey
	S   []byte
	pk  []byte
	raw []byte
}

func mkSike(set int, k sidhKey) (*sikePair, error) {
	s := sr.ByName(set)
	p := &sikePair{prv: sidh.NewPrivateKey(sidhIDs[set], sidh.KeyVariantSike), pub: sidh.NewPublicKey(sidhIDs[set], sidh.KeyVariantSike)}
	if _, err := k.fill(s, 1, p.prv); err != nil {
		return nil, err
	}
	p.prv.GeneratePublicKey(p.pub)
	p.raw = make([]byte, p.prv.Size())
	p.prv.Export(p.raw)
	p.S = p.raw[:s.Msg]
	p.pk = sidhPub(p.pub)
	return p, nil
}

func (p *sikePair) intact() error {
	b := make([]byte, p.prv.Size())
	p.prv.Export(b)
	if !bytes.Equal(b, p.raw) {
		return Errf("the private key was changed by an operation that only uses it")
	}
	if !bytes.Equal(sidhPub(p.pub), p.pk) {
		return Errf("the public key was changed by an operation that only uses it")
	}
	return nil
}

// sikeBox is a pair of key objects that get one content after the other.
type sikeBox struct {
	prv *sidh.PrivateKey
	pub *sidh.PublicKey
}

// load puts the content of p into the box, in one of several ways.
func (b *sikeBox) load(set, how int, p *sikePair) (*sikePair, error) {
	if b.prv == nil {
		b.prv, b.pub = sidh.NewPrivateKey(sidhIDs[set], sidh.KeyVariantSike), sidh.NewPublicKey(sidhIDs[set], sidh.KeyVariantSike)
	}
	switch how % 4 {
	case 1:
		if err := b.prv.Generate(GoodRNG(uint64(how)).New()); err != nil {
			return nil, Errf("Generate: %v", err)
		}
	case 2:
		b.prv.Init(sidhIDs[set], sidh.KeyVariantSike)
		b.pub.Init(sidhIDs[set], sidh.KeyVariantSike)
	}
	if err := b.prv.Import(append([]byte{}, p.raw...)); err != nil {
		return nil, Errf("Import: %v", err)
	}
	if how%4 == 3 {
		*b.pub = *p.pub
	} else if how/4%2 == 0 {
		if err := b.pub.Import(append([]byte{}, p.pk...)); err != nil {
			return nil, Errf("Import: %v", err)
		}
	} else {
		b.prv.GeneratePublicKey(b.pub)
	}
	return &sikePair{b.prv, b.pub, p.S, p.pk, p.raw}, nil
}

// use returns the key itself or, if box isn't 0, the box with the same content.
func (b *sikeBox) use(set, box, i int, p *sikePair) (*sikePair, error) {
	if box == 0 {
		return p, nil
	}
	return b.load(set, box+i, p)
}

// drawBox chooses between keys with objects of their own and shared objects.
func drawBox(t *rapid.T) int {
	if n := rapid.IntRange(0, 15).Draw(t, "box"); n < 8 {
		return n
	}
	return 0
}

// --- C21 correctness

type c21op struct {
	Op   string `json:"op"` // enc, dec, reset, alloc, key, failenc
	Kem  int    `json:"kem"`
	Key  int    `json:"key"`
	Ct   int    `json:"ct"`
	X, Y int
	K    *sidhKey `json:"k,omitempty"`
}
type c21 struct {
	Set   int `json:"set"`
	Impl  []string
	How   int
	CPU   string `json:"cpu"`
	Keys  []sidhKey
	Seed  uint64
	Chunk []int
	Box   int `json:"box,omitempty"`
	Ops   []c21op
}

func genC21(maxOps int) func(t *rapid.T) c21 {
	return func(t *rapid.T) c21 {
		c := c21{Set: drawSet(t), CPU: drawCPU(t), How: rapid.IntRange(0, 15).Draw(t, "how"), Seed: rapid.Uint64().Draw(t, "seed"), Chunk: DrawChunks(t, "chunks"), Box: drawBox(t)}
		s := sr.ByName(c.Set)
		n := rapid.IntRange(1, 2).Draw(t, "kems")
		for i := 0; i < n; i++ {
			c.Impl = append(c.Impl, rapid.SampledFrom(impls).Draw(t, "impl"))
		}
		n = rapid.IntRange(1, 2).Draw(t, "nkeys")
		for i := 0; i < n; i++ {
			c.Keys = append(c.Keys, drawSidhKey(t, "key", s, 1))
		}
		c.Ops = append(c.Ops, c21op{Op: "enc", X: rapid.SampledFrom([]int{0, 1, 3, 40, 500}).Draw(t, "x"), Y: rapid.SampledFrom([]int{0, 1, 3, 40}).Draw(t, "y")})
		c.Ops = append(c.Ops, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c21op {
			o := c21op{Op: rapid.SampledFrom([]string{"enc", "enc", "dec", "dec", "dec", "dec", "reset", "alloc", "key", "baddec", "failenc"}).Draw(t, "op"),
				Kem: rapid.IntRange(0, 1).Draw(t, "kem"), Key: rapid.IntRange(0, 1).Draw(t, "k"), Ct: rapid.IntRange(0, 5).Draw(t, "ct"),
				X: rapid.SampledFrom([]int{0, 0, 1, 3, 40, 500}).Draw(t, "x"), Y: rapid.SampledFrom([]int{0, 0, 1, 3, 40}).Draw(t, "y")}
			if o.Op == "key" {
				k := drawSidhKey(t, "key", s, 1)
				o.K = &k
			}
			return o
		}), 1, maxOps).Draw(t, "ops")...)
		c.Ops = append(c.Ops, c21op{Op: "dec", Ct: rapid.IntRange(0, 5).Draw(t, "lastct")})
		return c
	}
}

type ctRec struct {
	ct, key []byte
	pair    *sikePair
	n       int // which key
}

func runC21(c c21, x *Ctx) error { return sidhWithCPU(c.CPU, func() error { return runC21in(c, x) }) }

func runC21in(c c21, x *Ctx) error {
	s := sr.ByName(c.Set)
	rng := GoodRNG(c.Seed)
	rng.Chunks = c.Chunk
	src := &swapRNG{rng.New()}
	var kems []kemAPI
	for i, im := range c.Impl {
		kems = append(kems, newKem(im, c.How+i, c.Set, src))
	}
	var keys []*sikePair
	for _, k := range c.Keys {
		p, err := mkSike(c.Set, k)
		if err != nil {
			return err
		}
		keys = append(keys, p)
	}
	var cts []ctRec
	decs, seen := 0, map[string]bool{}
	x.Label("p%d", c.Set)
	if c.Box != 0 {
		x.Label("key objects reused")
	}
	var box sikeBox
	for i, op := range c.Ops {
		k := kems[op.Kem%len(kems)]
		orig := keys[op.Key%len(keys)]
		pair := orig
		switch op.Op {
		case "enc":
			gc, gs := NewGuard(s.CtLen()+op.X, i), NewGuard(s.Kem+op.Y, i+3)
			if k.CiphertextSize() != s.CtLen() || k.SharedSecretSize() != s.Kem {
				return Errf("sizes %d, %d", k.CiphertextSize(), k.SharedSecretSize())
			}
			pair, err := box.use(c.Set, c.Box, i, orig)
			if err != nil {
				return err
			}
			if err := k.Encapsulate(gc.BCap(), gs.BCap(), pair.pub); err != nil {
				return Errf("op %d: Encapsulate: %v", i, err)
			}
			if err := gc.Check(s.CtLen()); err != nil {
				return Errf("op %d: ciphertext: %v", i, err)
			}
			if err := gs.Check(s.Kem); err != nil {
				return Errf("op %d: secret: %v", i, err)
			}
			r := ctRec{append([]byte{}, gc.B()[:s.CtLen()]...), append([]byte{}, gs.B()[:s.Kem]...), orig, 0}
			if seen[string(r.ct)] || seen[string(r.key)] {
				return Errf("op %d: Encapsulate repeats an earlier ciphertext or key", i)
			}
			seen[string(r.ct)], seen[string(r.key)] = true, true
			cts = append(cts, r)
		case "dec":
			r := cts[op.Ct%len(cts)]
			g := NewGuard(s.Kem+op.Y, i)
			ct := append([]byte{}, r.ct...)
			p, err := box.use(c.Set, c.Box, i, r.pair)
			if err != nil {
				return err
			}
			if err := k.Decapsulate(g.BCap(), p.prv, p.pub, ct); err != nil {
				return Errf("op %d: Decapsulate: %v", i, err)
			}
			if !bytes.Equal(g.B()[:s.Kem], r.key) {
				return Errf("op %d: p%d %s: decapsulated key %x, encapsulated %x", i, c.Set, c.Impl[op.Kem%len(kems)], g.B()[:s.Kem], r.key)
			}
			if err := g.Check(s.Kem); err != nil {
				return Errf("op %d: secret: %v", i, err)
			}
			if !bytes.Equal(ct, r.ct) {
				return Errf("op %d: Decapsulate changed the ciphertext", i)
			}
			if err := p.intact(); err != nil {
				return Errf("op %d: %v", i, err)
			}
			decs++
		case "baddec":
			// something else goes through the object in between
			r := cts[op.Ct%len(cts)]
			bad := append([]byte{}, r.ct...)
			bad[(op.X*7)%len(bad)] ^= 1 << uint(op.Y%8)
			out := make([]byte, s.Kem)
			p, err := box.use(c.Set, c.Box, i, r.pair)
			if err != nil {
				return err
			}
			if err := k.Decapsulate(out, p.prv, p.pub, bad); err == nil && bytes.Equal(out, r.key) {
				return Errf("op %d: modified ciphertext gives the key of the original", i)
			}
		case "failenc":
			old := src.r
			f := GoodRNG(7)
			f.FailAt = op.X % s.Msg
			src.r = f.New()
			gc, gs := NewGuard(s.CtLen(), i), NewGuard(s.Kem, i)
			err := k.Encapsulate(gc.BCap(), gs.BCap(), pair.pub)
			src.r = old
			if err == nil {
				return Errf("op %d: Encapsulate succeeded although the RNG failed", i)
			}
		case "reset":
			k.Reset()
		case "alloc":
			// through another parameter set and back
			k.Allocate(sidhIDs[[]int{434, 503, 751}[op.X%3]], src)
			k.Allocate(sidhIDs[c.Set], src)
		case "key":
			p, err := mkSike(c.Set, *op.K)
			if err != nil {
				return err
			}
			keys[op.Key%len(keys)] = p
		}
	}
	if decs > 0 {
		x.NT()
	}
	return nil
}

// aim chooses two bytes of an ephemeral scalar, which is the hash of the
// message; a message with that hash is searched for.
type aim struct {
	A, B   int  // 0, 1: lowest bytes; 2, 3: second highest, highest byte
	VA, VB bool // all ones, otherwise zero
}

func (a aim) byteAt(which, bits int) (pos int, ones uint) {
	top := (bits - 1) / 8
	switch which {
	case 0, 1:
		return which, 255
	case 2:
		return top - 1, 255
	}
	return top, 255 >> uint(8*(top+1)-bits)
}

// find returns a message for which scalar, a number of so many bits, is as wanted.
func (a aim) find(bits, msg int, seed uint64, scalar func(m []byte) *big.Int) []byte {
	pa, oa := a.byteAt(a.A, bits)
	pb, ob := a.byteAt(a.B, bits)
	if !a.VA {
		oa = 0
	}
	if !a.VB {
		ob = 0
	}
	m := make([]byte, msg)
	p := NewPRNG(seed)
	for i := 0; i < 1<<20; i++ {
		p.Fill(m)
		b := sr.ToLE(scalar(m), (bits+7)/8)
		if uint(b[pa]) == oa && (pa == pb || uint(b[pb]) == ob) {
			break
		}
	}
	return m
}

func eachAim(emit func(a aim)) {
	for i := 0; i < 4; i++ {
		for j := i + 1; j < 4; j++ {
			for v := 0; v < 4; v++ {
				emit(aim{i, j, v&1 > 0, v&2 > 0})
			}
		}
	}
}

// c21a is a round trip with a chosen ephemeral scalar.
type c21a struct {
	Set  int    `json:"set"`
	Impl string `json:"impl"`
	Aim  aim    `json:"aim"`
	Seed uint64 `json:"seed"`
}

func enumC21a(tier string, emit func(c21a)) {
	n := 1
	if tier == "thorough" {
		n = 20
	}
	for i := 0; i < n; i++ {
		for _, set := range []int{434, 503, 751} {
			eachAim(func(a aim) {
				for _, impl := range []string{"sidh", "mkem"} {
					emit(c21a{set, impl, a, seedBase() + uint64(i)})
				}
			})
		}
	}
}

func runC21a(c c21a, x *Ctx) error {
	s := sr.ByName(c.Set)
	p, err := mkSike(c.Set, sidhKey{B: RndFixed(s.Bytes[1], c.Seed), S: RndFixed(s.Msg, c.Seed+1)})
	if err != nil {
		return err
	}
	m := c.Aim.find(s.Bits[0], s.Msg, c.Seed, func(m []byte) *big.Int { return s.Ephemeral(m, p.pk) })
	r := GoodRNG(c.Seed)
	r.Prefix = []Blob{RawBlob(m)}
	ct, key, got := make([]byte, s.CtLen()), make([]byte, s.Kem), make([]byte, s.Kem)
	if err := newKem(c.Impl, 0, c.Set, r.New()).Encapsulate(ct, key, p.pub); err != nil {
		return Errf("Encapsulate: %v", err)
	}
	for _, impl := range []string{"sidh", "mkem"} {
		if err := newKem(impl, 0, c.Set, r.New()).Decapsulate(got, p.prv, p.pub, ct); err != nil || !bytes.Equal(got, key) {
			return Errf("p%d: message %x (ephemeral scalar %x): %s encapsulates %x, %s decapsulates %x (%v)", c.Set, m, s.Ephemeral(m, p.pk), c.Impl, key, impl, got, err)
		}
	}
	x.NT()
	return nil
}

// --- C22 conformance

type c22 struct {
	Set  int    `json:"set"`
	CPU  string `json:"cpu"`
	Impl string `json:"impl"`
	Mode string `json:"mode"`
	Key  sidhKey
	Peer sidhKey
	M    Blob
	R    Blob
	X    int
	Aim  *aim `json:"aim,omitempty"` // instead of M
}

func drawAim(t *rapid.T) *aim {
	if rapid.Bool().Draw(t, "aimed") {
		return nil
	}
	return &aim{rapid.IntRange(0, 3).Draw(t, "a"), rapid.IntRange(0, 3).Draw(t, "b"), rapid.Bool().Draw(t, "va"), rapid.Bool().Draw(t, "vb")}
}

func genC22(t *rapid.T) c22 {
	c := c22{Set: drawSet(t), CPU: drawCPU(t), Impl: rapid.SampledFrom(impls).Draw(t, "impl"), Mode: rapid.SampledFrom([]string{"enc", "enc", "dec", "dec", "otherpk", "crafted", "points"}).Draw(t, "mode")}
	s := sr.ByName(c.Set)
	c.Key, c.Peer = drawSidhKey(t, "key", s, 1), drawSidhKey(t, "peer", s, 1)
	c.M = DrawBlob(t, "m", s.Msg)
	c.R = DrawBlob(t, "r", s.Bytes[0])
	c.X = rapid.IntRange(0, 1000).Draw(t, "x")
	c.Aim = drawAim(t)
	return c
}

func runC22(c c22, x *Ctx) error { return sidhWithCPU(c.CPU, func() error { return runC22in(c, x) }) }

func runC22in(c c22, x *Ctx) error {
	s := sr.ByName(c.Set)
	pair, err := mkSike(c.Set, c.Key)
	if err != nil {
		return err
	}
	sk := sr.LE(pair.raw[s.Msg:])
	w := s.Public(1, sk)
	pk := s.Enc(w[:]...)
	if !bytes.Equal(pk, pair.pk) {
		return Errf("p%d: public key of %x: got %s, specification %s", c.Set, sk, Short(pair.pk), Short(pk))
	}
	// the public key handed in isn't always the one the ciphertext was made for
	used := pair
	if c.Mode == "otherpk" {
		if used, err = mkSike(c.Set, c.Peer); err != nil {
			return err
		}
	}
	m := c.M.Bytes()
	if c.Aim != nil {
		m = c.Aim.find(s.Bits[0], s.Msg, uint64(c.X), func(m []byte) *big.Int { return s.Ephemeral(m, used.pk) })
		x.Label("chosen ephemeral scalar")
	}
	rng := GoodRNG(uint64(c.X))
	rng.Prefix = []Blob{RawBlob(m)}
	k := newKem(c.Impl, c.X, c.Set, rng.New())
	x.Label("%s p%d", c.Mode, c.Set)
	x.NT()
	ct, key := make([]byte, s.CtLen()), make([]byte, s.Kem)
	dec := func(pub *sidh.PublicKey, ct, want []byte) error {
		got := make([]byte, s.Kem)
		if err := k.Decapsulate(got, pair.prv, pub, ct); err != nil {
			return Errf("Decapsulate: %v", err)
		}
		if !bytes.Equal(got, want) {
			return Errf("p%d %s (%s): Decapsulate of %s gives %x, the specification %x", c.Set, c.Impl, c.Mode, Short(ct), got, want)
		}
		return nil
	}
	switch c.Mode {
	case "enc":
		if err := k.Encapsulate(ct, key, pair.pub); err != nil {
			return Errf("Encapsulate: %v", err)
		}
		wct, wkey := s.Encaps(m, pk)
		if !bytes.Equal(ct, wct) || !bytes.Equal(key, wkey) {
			return Errf("p%d %s: Encapsulate of message %x: ciphertext %s key %x, the specification gives %s and %x", c.Set, c.Impl, m, Short(ct), key, Short(wct), wkey)
		}
	case "dec":
		wct, wkey := s.Encaps(m, pk)
		if d := s.Decaps(pair.S, sk, pk, wct); !bytes.Equal(d, wkey) {
			return HarnessError{Msg: "reference KEM broken"}
		}
		return dec(pair.pub, wct, wkey)
	case "otherpk":
		wct, _ := s.Encaps(m, pk)
		return dec(used.pub, wct, s.Decaps(pair.S, sk, used.pk, wct))
	case "crafted":
		// well-formed, but made with another ephemeral key than the message dictates
		r := sr.LE(maskScalar(s, 0, c.R.Bytes()))
		c0 := s.Public(0, r)
		pp := s.DecPub(pk)
		j := s.Secret(0, r, &pp)
		h := sr.Shake256(s.Msg, s.Enc(j))
		for i := range h {
			h[i] ^= m[i]
		}
		wct := append(s.Enc(c0[:]...), h...)
		return dec(pair.pub, wct, s.Decaps(pair.S, sk, pk, wct))
	case "points":
		// other valid points in the place of the ephemeral key
		wct, _ := s.Encaps(m, pk)
		c0 := s.DecPub(wct[:s.PkLen()])
		for i := 0; i <= c.X%3; i++ {
			otherPoints(s, 1, []string{"start", "conj", "scale", "perm"}[c.X/(3*i+1)%4], uint64(c.X), &c0)
		}
		wct = append(s.Enc(c0[:]...), wct[s.PkLen():]...)
		return dec(pair.pub, wct, s.Decaps(pair.S, sk, pk, wct))
	}
	return nil
}

// --- C23 implicit rejection

type c23 struct {
	Set  int    `json:"set"`
	CPU  string `json:"cpu"`
	Impl string `json:"impl"`
	Key  sidhKey
	Peer sidhKey
	Seed uint64
	Bad  []c23bad
	Box  int `json:"box,omitempty"`
}
type c23bad struct {
	Kind string `json:"k"`
	Pos  int    `json:"p"`
	B    Blob   `json:"b"`
}

func genC23(t *rapid.T) c23 {
	c := c23{Set: drawSet(t), CPU: drawCPU(t), Impl: rapid.SampledFrom(impls).Draw(t, "impl"), Seed: rapid.Uint64().Draw(t, "seed"), Box: drawBox(t)}
	s := sr.ByName(c.Set)
	c.Key, c.Peer = drawSidhKey(t, "key", s, 1), drawSidhKey(t, "peer", s, 1)
	c.Bad = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c23bad {
		b := c23bad{Kind: rapid.SampledFrom([]string{"bit", "bit", "bit0", "bit1", "last", "first", "other", "mix", "lift", "blob", "msg", "swap", "zero"}).Draw(t, "kind"),
			Pos: rapid.IntRange(0, 8*s.CtLen()-1).Draw(t, "pos")}
		if b.Kind == "blob" || b.Kind == "msg" {
			b.B = DrawBlob(t, "b", s.CtLen())
		}
		return b
	}), 1, 4).Draw(t, "bad")
	return c
}

func runC23(c c23, x *Ctx) error { return sidhWithCPU(c.CPU, func() error { return runC23in(c, x) }) }

func runC23in(c c23, x *Ctx) error {
	s := sr.ByName(c.Set)
	pair, err := mkSike(c.Set, c.Key)
	if err != nil {
		return err
	}
	k := newKem(c.Impl, int(c.Seed%16), c.Set, GoodRNG(c.Seed).New())
	ct, key := make([]byte, s.CtLen()), make([]byte, s.Kem)
	if err := k.Encapsulate(ct, key, pair.pub); err != nil {
		return Errf("Encapsulate: %v", err)
	}
	other := func() ([]byte, error) {
		peer, err := mkSike(c.Set, c.Peer)
		if err != nil {
			return nil, err
		}
		o, ok := make([]byte, s.CtLen()), make([]byte, s.Kem)
		if err := k.Encapsulate(o, ok, peer.pub); err != nil {
			return nil, Errf("Encapsulate: %v", err)
		}
		if bytes.Equal(peer.pk, pair.pk) {
			return nil, nil
		}
		return o, nil
	}
	pl := s.PkLen()
	box, home := sikeBox{}, pair
	for i, b := range c.Bad {
		if c.Box != 0 {
			// the objects hold another key before
			peer, err := mkSike(c.Set, c.Peer)
			if err != nil {
				return err
			}
			if peer, err = box.load(c.Set, c.Box+i, peer); err != nil {
				return err
			}
			got := make([]byte, s.Kem)
			if err := k.Decapsulate(got, peer.prv, peer.pub, append([]byte{}, ct...)); err != nil {
				return Errf("p%d %s: Decapsulate of a ciphertext for another key: %v", c.Set, c.Impl, err)
			}
			if w := s.Reject(peer.S, ct); !bytes.Equal(got, w) && !bytes.Equal(peer.pk, home.pk) {
				return Errf("p%d %s: ciphertext for another key gives %x, implicit rejection prescribes %x", c.Set, c.Impl, got, w)
			}
			if pair, err = box.load(c.Set, c.Box+i+1, home); err != nil {
				return err
			}
		}
		bad := append([]byte{}, ct...)
		flip := func(i int) { bad[i/8] ^= 1 << uint(i%8) }
		switch b.Kind {
		case "bit":
			flip(b.Pos)
		case "bit0": // in the ephemeral key
			flip(b.Pos % (8 * pl))
		case "bit1": // in the masked message
			flip(8*pl + b.Pos%(8*s.Msg))
		case "last":
			flip(8*len(bad) - 1 - b.Pos%8)
		case "first":
			flip(b.Pos % 8)
		case "other":
			o, err := other()
			if err != nil {
				return err
			}
			if o == nil {
				continue
			}
			bad = o
		case "mix": // ephemeral key of one, message of another ciphertext for the same key
			o, ok := make([]byte, s.CtLen()), make([]byte, s.Kem)
			if err := k.Encapsulate(o, ok, pair.pub); err != nil {
				return Errf("Encapsulate: %v", err)
			}
			if b.Pos%2 == 0 {
				copy(bad[:pl], o)
			} else {
				copy(bad[pl:], o[pl:])
			}
		case "lift": // the same field elements, not reduced
			copy(bad, lift(s, bad[:pl], uint64(b.Pos)))
		case "blob":
			bad = b.B.Bytes()
		case "msg":
			copy(bad[pl:], b.B.Bytes())
		case "swap":
			n := 2 * s.Len
			copy(bad[:n], ct[n:2*n])
			copy(bad[n:2*n], ct[:n])
		case "zero":
			for i := 0; i < 1+b.Pos%len(bad); i++ {
				bad[len(bad)-1-i] = 0
			}
		}
		if bytes.Equal(bad, ct) {
			x.Label("unchanged")
			continue
		}
		x.Label("%s p%d", b.Kind, c.Set)
		got := make([]byte, s.Kem)
		if err := k.Decapsulate(got, pair.prv, pair.pub, append([]byte{}, bad...)); err != nil {
			return Errf("p%d %s: Decapsulate of a modified ciphertext (%s): %v", c.Set, c.Impl, b.Kind, err)
		}
		if bytes.Equal(got, key) {
			return Errf("p%d %s: modified ciphertext (%s at %d) gives the key of the original", c.Set, c.Impl, b.Kind, b.Pos)
		}
		if w := s.Reject(pair.S, bad); !bytes.Equal(got, w) {
			return Errf("p%d %s: modified ciphertext (%s at %d) gives %x, implicit rejection prescribes %x", c.Set, c.Impl, b.Kind, b.Pos, got, w)
		}
		x.NT()
	}
	got := make([]byte, s.Kem)
	if err := k.Decapsulate(got, pair.prv, pair.pub, ct); err != nil || !bytes.Equal(got, key) {
		return Errf("p%d %s: after rejections the honest ciphertext gives %x (%v), want %x", c.Set, c.Impl, got, err, key)
	}
	return pair.intact()
}

// c23e: every byte of a ciphertext is covered.
type c23e struct {
	Set  int    `json:"set"`
	Impl string `json:"impl"`
	Pos  []int  `json:"pos"` // bits
	Seed uint64 `json:"seed"`
	// this coordinate (counted from 1) is replaced by another encoding
	Lift int `json:"lift,omitempty"`
}

var c23cache = map[string]*struct {
	pair    *sikePair
	ct, key []byte
}{}

func runC23e(c c23e, x *Ctx) error {
	s := sr.ByName(c.Set)
	id := fmt.Sprint(c.Set, c.Impl, c.Seed)
	e := c23cache[id]
	k := newKem(c.Impl, 0, c.Set, GoodRNG(c.Seed).New())
	if e == nil {
		e = &struct {
			pair    *sikePair
			ct, key []byte
		}{ct: make([]byte, s.CtLen()), key: make([]byte, s.Kem)}
		var err error
		e.pair, err = mkSike(c.Set, sidhKey{B: Blob{Kind: "rnd", Len: s.Bytes[1], Seed: c.Seed}, S: Blob{Kind: "rnd", Len: s.Msg, Seed: c.Seed + 1}})
		if err != nil {
			return err
		}
		if err := k.Encapsulate(e.ct, e.key, e.pair.pub); err != nil {
			return Errf("Encapsulate: %v", err)
		}
		c23cache[id] = e
	}
	bad := append([]byte{}, e.ct...)
	for _, p := range c.Pos {
		bad[p/8] ^= 1 << uint(p%8)
	}
	if c.Lift > 0 {
		copy(bad, lift(s, bad[:s.PkLen()], uint64(2*c.Lift-1)))
	}
	got := make([]byte, s.Kem)
	if err := k.Decapsulate(got, e.pair.prv, e.pair.pub, bad); err != nil {
		return Errf("Decapsulate: %v", err)
	}
	if w := s.Reject(e.pair.S, bad); !bytes.Equal(got, w) {
		same := ""
		if bytes.Equal(got, e.key) {
			same = ", the key of the original"
		}
		return Errf("p%d %s: ciphertext with bits %v flipped (coordinate not reduced: %d) gives %x%s; implicit rejection prescribes %x", c.Set, c.Impl, c.Pos, c.Lift, got, same, w)
	}
	x.NT()
	return nil
}

// --- C24 failures of the RNG

type c24 struct {
	Set    int    `json:"set"`
	API    string `json:"api"` // sidh, mkem, multi
	Fail   int    `json:"fail"`
	Chunks []int  `json:"chunks"`
	Err    string `json:"err"`
	Data   bool   `json:"data"`
	Warm   bool   `json:"warm"` // a successful operation came before
}

var c24keys = map[int]*sikePair{}

func runC24(c c24, x *Ctx) error {
	s := sr.ByName(c.Set)
	pair := c24keys[c.Set]
	if pair == nil {
		var err error
		if pair, err = mkSike(c.Set, sidhKey{B: Blob{Kind: "rnd", Len: s.Bytes[1], Seed: 5}, S: Blob{Kind: "rnd", Len: s.Msg, Seed: 6}}); err != nil {
			return err
		}
		c24keys[c.Set] = pair
	}
	src := &swapRNG{GoodRNG(1).New()}
	var enc func(ct, ss []byte) error
	var dec func(ss, ct []byte) error
	ctn := s.CtLen()
	if c.API == "multi" {
		var m mkem.MultiKEM
		m.Allocate(sidhIDs[c.Set], 1, src)
		enc = func(ct, ss []byte) error {
			err := m.Encapsulate(ss, []*sidh.PublicKey{pair.pub})
			if err == nil {
				copy(ct, multiCt(&m, 0)[:s.Msg])
			}
			return err
		}
		dec = func(ss, ct []byte) error { return m.Decapsulate(ss, pair.prv, pair.pub, ct) }
		ctn = s.Msg
	} else {
		k := newKem(c.API, c.Fail, c.Set, src)
		enc = func(ct, ss []byte) error { return k.Encapsulate(ct, ss, pair.pub) }
		dec = func(ss, ct []byte) error { return k.Decapsulate(ss, pair.prv, pair.pub, ct) }
	}
	if c.Warm {
		if err := enc(make([]byte, ctn), make([]byte, s.Kem)); err != nil {
			return Errf("Encapsulate: %v", err)
		}
	}
	r := GoodRNG(uint64(c.Fail) + 99)
	r.FailAt, r.Chunks, r.ErrKind, r.FailWithData = c.Fail, c.Chunks, c.Err, c.Data
	src.r = r.New()
	gc, gs := NewGuard(ctn, c.Fail), NewGuard(s.Kem, c.Fail)
	err := enc(gc.BCap(), gs.BCap())
	x.Label("%s p%d", c.API, c.Set)
	x.NT()
	if c.Fail == s.Msg {
		// everything that was asked for has been delivered
		if err != nil {
			return Errf("p%d %s: Encapsulate fails (%v) although the RNG delivered all of the %d bytes (%q, data with error: %v, reads of %v)", c.Set, c.API, err, s.Msg, c.Err, c.Data, c.Chunks)
		}
		src.r = GoodRNG(uint64(c.Fail) + 99).New()
		ct, ss := make([]byte, ctn), make([]byte, s.Kem)
		if err := enc(ct, ss); err != nil {
			return Errf("p%d %s: Encapsulate: %v", c.Set, c.API, err)
		}
		if !bytes.Equal(ct, gc.BCap()) || !bytes.Equal(ss, gs.BCap()) {
			return Errf("p%d %s: encapsulation depends on what the RNG says with the last of its bytes (%q, %v, reads of %v)", c.Set, c.API, c.Err, c.Data, c.Chunks)
		}
		return nil
	}
	if err == nil {
		return Errf("p%d %s: Encapsulate reports success although the RNG failed after %d of %d bytes (%q, data with error: %v, reads of %v)", c.Set, c.API, c.Fail, s.Msg, c.Err, c.Data, c.Chunks)
	}
	if err := gc.Check(0); err != nil {
		return Errf("p%d %s: failed Encapsulate wrote a ciphertext: %v", c.Set, c.API, err)
	}
	if err := gs.Check(0); err != nil {
		return Errf("p%d %s: failed Encapsulate wrote a key: %v", c.Set, c.API, err)
	}
	// the object recovers and the operation doesn't depend on read sizes
	var keys [2][]byte
	for i := range keys {
		g := GoodRNG(uint64(c.Fail) + 99)
		if i == 1 {
			g.Chunks = c.Chunks
		}
		src.r = g.New()
		ct, ss := make([]byte, ctn), make([]byte, s.Kem)
		if err := enc(ct, ss); err != nil {
			return Errf("p%d %s: Encapsulate after a failure: %v", c.Set, c.API, err)
		}
		got := make([]byte, s.Kem)
		if err := dec(got, ct); err != nil || !bytes.Equal(got, ss) {
			return Errf("p%d %s: after a failure of the RNG: decapsulated %x (%v), encapsulated %x", c.Set, c.API, got, err, ss)
		}
		keys[i] = ss
	}
	if !bytes.Equal(keys[0], keys[1]) {
		return Errf("p%d %s: encapsulation depends on read sizes %v", c.Set, c.API, c.Chunks)
	}
	return nil
}

// --- C19 misuse

type c19 struct {
	Set  int    `json:"set"`
	Peer int    `json:"peer"` // other parameter set
	Impl string `json:"impl"`
	Case string `json:"case"`
	N    int    `json:"n"`
}

type c19key struct {
	prv    *sidh.PrivateKey
	pub    *sidh.PublicKey
	sk, pk []byte
}

var c19keys = map[string]*c19key{}

func c19pair(set int, v sidh.KeyVariant) (*sidh.PrivateKey, *sidh.PublicKey) {
	id := fmt.Sprint(set, v)
	e := c19keys[id]
	if e == nil {
		e = &c19key{prv: sidh.NewPrivateKey(sidhIDs[set], v), pub: sidh.NewPublicKey(sidhIDs[set], v)}
		if err := e.prv.Generate(GoodRNG(uint64(set) + uint64(v)).New()); err != nil {
			panic(HarnessError{Msg: err.Error()})
		}
		e.prv.GeneratePublicKey(e.pub)
		e.sk, e.pk = make([]byte, e.prv.Size()), sidhPub(e.pub)
		e.prv.Export(e.sk)
		c19keys[id] = e
	}
	return e.prv, e.pub
}

// withS: a copy of a key that has a rejection secret, which SIDH keys have not.
func withS(k *sidh.PrivateKey, n int) *sidh.PrivateKey {
	q := *k
	q.S = make([]byte, n)
	return &q
}

var variants = []sidh.KeyVariant{sidh.KeyVariantSidhA, sidh.KeyVariantSidhB, sidh.KeyVariantSike}

func runC19(c c19, x *Ctx) error {
	s := sr.ByName(c.Set)
	prv, pub := c19pair(c.Set, sidh.KeyVariantSike)
	x.Label("%s", c.Case)
	x.NT()
	k := newKem(c.Impl, c.N, c.Set, GoodRNG(3).New())
	refused := func(what string, outs []*Guard, f func() error) error {
		var err error
		cg := Try(func() { err = f() })
		if !cg.Panicked && err == nil {
			return Errf("p%d %s: %s is accepted", c.Set, c.Impl, what)
		}
		for _, g := range outs {
			if e := g.Check(0); e != nil {
				return Errf("p%d %s: refused call (%s) wrote to an output: %v", c.Set, c.Impl, what, e)
			}
		}
		return nil
	}
	gct, gss := NewGuard(s.CtLen(), c.N), NewGuard(s.Kem, c.N)
	var res error
	var used *mkem.MultiKEM
	switch c.Case {
	case "unallocated":
		var u kemAPI = new(sidh.KEM)
		if c.Impl == "mkem" {
			u = new(mkem.KEM)
		}
		res = refused("Encapsulate on an unallocated KEM", []*Guard{gct, gss}, func() error { return u.Encapsulate(gct.B(), gss.B(), pub) })
		if res == nil {
			res = refused("Decapsulate on an unallocated KEM", []*Guard{gss}, func() error { return u.Decapsulate(gss.B(), prv, pub, make([]byte, s.CtLen())) })
		}
	case "unallocated-multi":
		var m mkem.MultiKEM
		res = refused("Encapsulate on an unallocated MultiKEM", []*Guard{gss}, func() error { return m.Encapsulate(gss.B(), []*sidh.PublicKey{pub}) })
		if res == nil {
			res = refused("Decapsulate on an unallocated MultiKEM", []*Guard{gss}, func() error { return m.Decapsulate(gss.B(), prv, pub, make([]byte, s.Kem)) })
		}
	case "enc-variant":
		_, p := c19pair(c.Set, variants[c.N%2])
		res = refused(fmt.Sprintf("Encapsulate for a key of variant %d", p.Variant()), []*Guard{gct, gss}, func() error { return k.Encapsulate(gct.B(), gss.B(), p) })
	case "enc-set":
		_, p := c19pair(c.Peer, sidh.KeyVariantSike)
		res = refused(fmt.Sprintf("Encapsulate for a key of p%d", c.Peer), nil, func() error { return k.Encapsulate(gct.B(), gss.B(), p) })
	case "enc-ct":
		g := NewGuard(s.CtLen()-1-c.N, 0)
		res = refused(fmt.Sprintf("ciphertext buffer of %d bytes", s.CtLen()-1-c.N), []*Guard{g, gss}, func() error { return k.Encapsulate(g.BCap(), gss.B(), pub) })
	case "enc-ss":
		g := NewGuard(s.Kem-1-c.N, 0)
		res = refused(fmt.Sprintf("secret buffer of %d bytes", s.Kem-1-c.N), []*Guard{g, gct}, func() error { return k.Encapsulate(gct.B(), g.BCap(), pub) })
	case "dec-pubvariant":
		_, p := c19pair(c.Set, variants[c.N%2])
		res = refused(fmt.Sprintf("Decapsulate with a public key of variant %d", p.Variant()), []*Guard{gss}, func() error { return k.Decapsulate(gss.B(), prv, p, make([]byte, s.CtLen())) })
	case "dec-prvvariant":
		q, _ := c19pair(c.Set, variants[c.N%2])
		if c.N&2 != 0 {
			q = withS(q, s.Msg)
		}
		res = refused(fmt.Sprintf("Decapsulate with a private key of variant %d", q.Variant()), []*Guard{gss}, func() error { return k.Decapsulate(gss.B(), q, pub, make([]byte, s.CtLen())) })
	case "dec-set", "multi-dec-set":
		q, p := prv, pub
		if c.N != 1 {
			q, _ = c19pair(c.Peer, sidh.KeyVariantSike)
		}
		if c.N != 0 {
			_, p = c19pair(c.Peer, sidh.KeyVariantSike)
		}
		what := fmt.Sprintf("decapsulation with %s key of p%d", []string{"private", "public", "private and public"}[c.N%3], c.Peer)
		if c.Case == "dec-set" {
			res = refused(what, []*Guard{gss}, func() error { return k.Decapsulate(gss.B(), q, p, make([]byte, s.CtLen())) })
			break
		}
		var m mkem.MultiKEM
		m.Allocate(sidhIDs[c.Set], 1, GoodRNG(3).New())
		if err := m.Encapsulate(make([]byte, s.Kem), []*sidh.PublicKey{pub}); err != nil {
			return Errf("Encapsulate: %v", err)
		}
		res = refused("MultiKEM "+what, []*Guard{gss}, func() error { return m.Decapsulate(gss.B(), q, p, make([]byte, s.Kem)) })
	case "dec-ct":
		n := s.CtLen() + c.N
		if n < 0 {
			n = 0
		}
		res = refused(fmt.Sprintf("ciphertext of %d bytes", n), []*Guard{gss}, func() error { return k.Decapsulate(gss.B(), prv, pub, make([]byte, n)) })
	case "dec-ss":
		g := NewGuard(s.Kem-1-c.N, 0)
		res = refused(fmt.Sprintf("secret buffer of %d bytes", s.Kem-1-c.N), []*Guard{g}, func() error { return k.Decapsulate(g.BCap(), prv, pub, make([]byte, s.CtLen())) })
	case "dh-same":
		v := variants[c.N%3]
		q, _ := c19pair(c.Set, v)
		_, p := c19pair(c.Set, v)
		g := NewGuard(s.SsLen(), 0)
		res = refused(fmt.Sprintf("DeriveSecret from two keys of variant %d", v), []*Guard{g}, func() error { q.DeriveSecret(g.B(), p); return nil })
	case "dh-sike": // both of the 3-torsion group
		q, _ := c19pair(c.Set, variants[1+c.N%2])
		_, p := c19pair(c.Set, variants[2-c.N%2])
		g := NewGuard(s.SsLen(), 0)
		res = refused(fmt.Sprintf("DeriveSecret from a private key of variant %d and a public key of variant %d", q.Variant(), p.Variant()), []*Guard{g}, func() error { sidh.DeriveSecret(g.B(), p, q); return nil })
	case "dh-set":
		q, _ := c19pair(c.Set, variants[c.N%2])
		_, p := c19pair(c.Peer, variants[1-c.N%2])
		g := NewGuard(s.SsLen(), 0)
		res = refused(fmt.Sprintf("DeriveSecret from keys of p%d and p%d", c.Set, c.Peer), []*Guard{g}, func() error { sidh.DeriveSecret(g.B(), p, q); return nil })
	case "dh-ss":
		q, _ := c19pair(c.Set, variants[c.N%2])
		_, p := c19pair(c.Set, variants[1-c.N%2])
		n := s.SsLen() - 1 - c.N
		g := NewGuard(n, 0)
		res = refused(fmt.Sprintf("DeriveSecret into %d bytes", n), nil, func() error { q.DeriveSecret(g.B(), p); return nil })
	case "pk-variant":
		q, _ := c19pair(c.Set, variants[c.N%3])
		p := sidh.NewPublicKey(sidhIDs[c.Set], variants[(c.N%3+1+c.N/3)%3])
		before := sidhPub(p)
		res = refused(fmt.Sprintf("public key of variant %d made of a private key of variant %d", p.Variant(), q.Variant()), nil, func() error { sidh.GeneratePublicKey(p, q); return nil })
		if res == nil && !bytes.Equal(before, sidhPub(p)) {
			res = Errf("refused GeneratePublicKey changed the key")
		}
	case "pk-set":
		q, _ := c19pair(c.Set, variants[c.N%3])
		p := sidh.NewPublicKey(sidhIDs[c.Peer], variants[c.N%3])
		before := sidhPub(p)
		res = refused(fmt.Sprintf("public key of p%d made of a private key of p%d", c.Peer, c.Set), nil, func() error { q.GeneratePublicKey(p); return nil })
		if res == nil && !bytes.Equal(before, sidhPub(p)) {
			res = Errf("refused GeneratePublicKey changed the key")
		}
	case "pub-short":
		_, p := c19pair(c.Set, variants[c.N%3])
		res = refused("Export into a short buffer", nil, func() error { p.Export(make([]byte, s.PkLen()-1-c.N)); return nil })
	case "multi-variant":
		m := new(mkem.MultiKEM)
		used = m
		m.Allocate(sidhIDs[c.Set], 3, GoodRNG(3).New())
		_, p := c19pair(c.Set, variants[c.N%2])
		keys := []*sidh.PublicKey{pub, pub, pub}
		keys[c.N/2%3] = p
		res = refused("MultiKEM encapsulation for a key of the wrong variant", []*Guard{gss}, func() error { return m.Encapsulate(gss.B(), keys) })
	case "multi-set":
		m := new(mkem.MultiKEM)
		used = m
		m.Allocate(sidhIDs[c.Set], 2, GoodRNG(3).New())
		_, p := c19pair(c.Peer, sidh.KeyVariantSike)
		keys := []*sidh.PublicKey{pub, pub}
		keys[c.N%2] = p
		res = refused("MultiKEM encapsulation for a key of another field", []*Guard{gss}, func() error { return m.Encapsulate(gss.B(), keys) })
	case "multi-many":
		m := new(mkem.MultiKEM)
		used = m
		m.Allocate(sidhIDs[c.Set], uint(c.N%3), GoodRNG(3).New())
		keys := []*sidh.PublicKey{pub, pub, pub}
		res = refused("MultiKEM encapsulation for more recipients than allocated", []*Guard{gss}, func() error { return m.Encapsulate(gss.B(), keys) })
	case "multi-enc-ss", "multi-dec-ss", "multi-dec-ct", "multi-dec-pubvariant", "multi-dec-prvvariant":
		m := new(mkem.MultiKEM)
		used = m
		m.Allocate(sidhIDs[c.Set], 1, GoodRNG(3).New())
		if err := m.Encapsulate(make([]byte, s.Kem), []*sidh.PublicKey{pub}); err != nil {
			return Errf("Encapsulate: %v", err)
		}
		ct := append([]byte{}, multiCt(m, 0)[:s.Kem]...)
		q, p := c19pair(c.Set, variants[c.N&1])
		if c.N&2 != 0 {
			q = withS(q, s.Msg)
		}
		switch c.Case {
		case "multi-enc-ss":
			g := NewGuard(s.Kem-1-c.N, 0)
			res = refused("MultiKEM secret buffer too short", []*Guard{g}, func() error { return m.Encapsulate(g.BCap(), []*sidh.PublicKey{pub}) })
		case "multi-dec-ss":
			g := NewGuard(s.Kem-1-c.N, 0)
			res = refused("MultiKEM secret buffer too short", []*Guard{g}, func() error { return m.Decapsulate(g.BCap(), prv, pub, ct) })
		case "multi-dec-ct":
			n := s.Kem + c.N
			if n < 0 {
				n = 0
			}
			res = refused(fmt.Sprintf("MultiKEM ciphertext of %d bytes", n), []*Guard{gss}, func() error { return m.Decapsulate(gss.B(), prv, pub, make([]byte, n)) })
		case "multi-dec-pubvariant":
			res = refused("MultiKEM decapsulation with a public key of the wrong variant", []*Guard{gss}, func() error { return m.Decapsulate(gss.B(), prv, p, ct) })
		case "multi-dec-prvvariant":
			res = refused("MultiKEM decapsulation with a private key of the wrong variant", []*Guard{gss}, func() error { return m.Decapsulate(gss.B(), q, pub, ct) })
		}
	default:
		return HarnessError{Msg: c.Case}
	}
	if res != nil {
		return res
	}
	// the objects still work (not asked again for every length)
	if (c.N > 16 || c.N < -16) && c.N%16 != 0 {
		return nil
	}
	ct, ss, got := make([]byte, s.CtLen()), make([]byte, s.Kem), make([]byte, s.Kem)
	if err := k.Encapsulate(ct, ss, pub); err != nil {
		return Errf("Encapsulate after %s: %v", c.Case, err)
	}
	if err := k.Decapsulate(got, prv, pub, ct); err != nil || !bytes.Equal(got, ss) {
		return Errf("p%d %s: after refused call (%s): decapsulated %x (%v), encapsulated %x", c.Set, c.Impl, c.Case, got, err, ss)
	}
	if used != nil && (c.Case != "multi-many" || c.N%3 > 0) {
		if err := used.Encapsulate(ss, []*sidh.PublicKey{pub}); err != nil {
			return Errf("MultiKEM Encapsulate after %s: %v", c.Case, err)
		}
		if err := used.Decapsulate(got, prv, pub, append([]byte{}, multiCt(used, 0)[:s.Msg]...)); err != nil || !bytes.Equal(got, ss) {
			return Errf("p%d: after refused call (%s): MultiKEM decapsulates %x (%v), encapsulated was %x", c.Set, c.Case, got, err, ss)
		}
	}
	for _, set := range []int{c.Set, c.Peer} {
		for _, v := range variants {
			e := c19keys[fmt.Sprint(set, v)]
			if e == nil {
				continue
			}
			b := make([]byte, len(e.sk))
			e.prv.Export(b)
			if !bytes.Equal(b, e.sk) || !bytes.Equal(sidhPub(e.pub), e.pk) {
				return Errf("refused call (%s) changed a key of p%d, variant %d", c.Case, set, v)
			}
		}
	}
	return nil
}

func upTo(n int, more ...int) (r []int) {
	for i := 0; i <= n; i++ {
		r = append(r, i)
	}
	return append(r, more...)
}

// the lengths right - n for all n up to right, and some more
func around(right int) (r []int) {
	for i := -right; i <= right+80; i++ {
		if i != 0 {
			r = append(r, i)
		}
	}
	return append(r, 10000)
}

func enumC19(tier string, emit func(c19)) {
	for _, set := range []int{434, 503, 751} {
		s := sr.ByName(set)
		per := map[string][]int{
			"unallocated": {0}, "unallocated-multi": {0}, "enc-variant": {0, 1}, "enc-set": {0}, "enc-ct": upTo(s.CtLen() - 1),
			"enc-ss": upTo(s.Kem - 1), "dec-pubvariant": {0, 1}, "dec-prvvariant": {0, 1, 2, 3},
			"dec-ct": around(s.CtLen()), "dec-ss": upTo(s.Kem - 1),
			"dec-set": {0, 1, 2}, "multi-dec-set": {0, 1, 2}, "dh-same": {0, 1, 2}, "dh-set": {0, 1}, "dh-sike": {0, 1}, "dh-ss": upTo(s.SsLen() - 1), "pk-variant": {0, 1, 2, 3, 4, 5}, "pk-set": {0, 1, 2}, "pub-short": upTo(s.PkLen() - 1),
			"multi-variant": {0, 1, 2, 3, 4, 5}, "multi-set": {0, 1}, "multi-many": {0, 1, 2}, "multi-enc-ss": upTo(s.Kem - 1), "multi-dec-ss": upTo(s.Kem - 1),
			"multi-dec-ct": around(s.Kem), "multi-dec-pubvariant": {0, 1}, "multi-dec-prvvariant": {0, 1, 2, 3},
		}
		for _, cs := range SortedKeys(per) {
			for _, n := range per[cs] {
				for i, impl := range []string{"sidh", "mkem"} {
					if i == 1 && (strings.HasPrefix(cs, "dh") || strings.HasPrefix(cs, "pk") || strings.HasPrefix(cs, "pub") || strings.HasPrefix(cs, "multi")) {
						continue
					}
					for _, peer := range []int{434, 503, 751} {
						if peer != set && strings.HasSuffix(cs, "-set") {
							emit(c19{set, peer, impl, cs, n})
						}
					}
					if !strings.HasSuffix(cs, "-set") {
						emit(c19{set, 0, impl, cs, n})
					}
				}
			}
		}
	}
}

// c19h: misuse in the middle of an otherwise ordinary history.
type c19h struct {
	Set  int    `json:"set"`
	Impl string `json:"impl"`
	Seed uint64 `json:"seed"`
	Ops  []c19hop
}
type c19hop struct {
	Op string `json:"op"`
	N  int    `json:"n"`
}

func genC19h(t *rapid.T) c19h {
	c := c19h{Set: drawSet(t), Impl: rapid.SampledFrom(impls).Draw(t, "impl"), Seed: rapid.Uint64().Draw(t, "seed")}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c19hop {
		return c19hop{rapid.SampledFrom([]string{"ok", "ct", "dct", "ss", "dss", "var", "dvar", "dpvar", "set", "dset"}).Draw(t, "op"), rapid.IntRange(-400, 1000).Draw(t, "n")}
	}), 1, 5).Draw(t, "ops")
	return c
}

func runC19h(c c19h, x *Ctx) error {
	s := sr.ByName(c.Set)
	prv, pub := c19pair(c.Set, sidh.KeyVariantSike)
	k := newKem(c.Impl, int(c.Seed%16), c.Set, GoodRNG(c.Seed).New())
	ct, ss := make([]byte, s.CtLen()), make([]byte, s.Kem)
	if err := k.Encapsulate(ct, ss, pub); err != nil {
		return Errf("Encapsulate: %v", err)
	}
	abs := func(n, m int) int {
		if n < 0 {
			n = -n
		}
		return n % m
	}
	for i, op := range c.Ops {
		gct, gss := NewGuard(s.CtLen(), i), NewGuard(s.Kem, i)
		var err error
		bad := true
		f := func() {}
		switch op.Op {
		case "ok":
			bad = false
			f = func() { err = k.Encapsulate(ct, ss, pub) }
		case "ct":
			g := NewGuard(abs(op.N, s.CtLen()), i)
			f = func() { err = k.Encapsulate(g.BCap(), gss.B(), pub) }
		case "ss":
			g := NewGuard(abs(op.N, s.Kem), i)
			f = func() { err = k.Encapsulate(gct.B(), g.BCap(), pub) }
		case "dss":
			g := NewGuard(abs(op.N, s.Kem), i)
			f = func() { err = k.Decapsulate(g.BCap(), prv, pub, ct) }
		case "dct":
			n := s.CtLen() + op.N
			if n < 0 {
				n = 0
			}
			if n == s.CtLen() {
				continue
			}
			b := make([]byte, n)
			copy(b, ct)
			f = func() { err = k.Decapsulate(gss.B(), prv, pub, b) }
		case "var":
			_, p := c19pair(c.Set, variants[abs(op.N, 2)])
			f = func() { err = k.Encapsulate(gct.B(), gss.B(), p) }
		case "dvar":
			_, p := c19pair(c.Set, variants[abs(op.N, 2)])
			f = func() { err = k.Decapsulate(gss.B(), prv, p, ct) }
		case "dpvar":
			q, _ := c19pair(c.Set, variants[abs(op.N, 2)])
			if op.N&4 != 0 {
				q = withS(q, s.Msg)
			}
			f = func() { err = k.Decapsulate(gss.B(), q, pub, ct) }
		case "set":
			o := []int{434, 503, 751}[abs(op.N, 3)]
			if o == c.Set {
				continue
			}
			_, p := c19pair(o, sidh.KeyVariantSike)
			f = func() { err = k.Encapsulate(gct.B(), gss.B(), p) }
		case "dset":
			o := []int{434, 503, 751}[abs(op.N, 3)]
			if o == c.Set {
				continue
			}
			_, p := c19pair(o, sidh.KeyVariantSike)
			f = func() { err = k.Decapsulate(gss.B(), prv, p, ct) }
		}
		cg := Try(f)
		if bad {
			if !cg.Panicked && err == nil {
				return Errf("op %d: p%d %s: misuse %s (%d) is accepted", i, c.Set, c.Impl, op.Op, op.N)
			}
			if e := gss.Check(0); e != nil {
				return Errf("op %d: refused call (%s) wrote a key", i, op.Op)
			}
			x.NT()
		} else if cg.Panicked || err != nil {
			return Errf("op %d: Encapsulate: %v %v", i, cg.Val, err)
		}
		got := make([]byte, s.Kem)
		if err := k.Decapsulate(got, prv, pub, ct); err != nil || !bytes.Equal(got, ss) {
			return Errf("op %d: p%d %s: after %s: decapsulated %x (%v), encapsulated %x", i, c.Set, c.Impl, op.Op, got, err, ss)
		}
	}
	return nil
}

// --- C27 both implementations agree

type c27op struct {
	Op   string `json:"op"`
	Key  int    `json:"key"`
	Ct   int    `json:"ct"`
	N, M int
	Fail int
}
type c27 struct {
	Set    int `json:"set"`
	Keys   []sidhKey
	Seed   uint64
	Chunks []int
	Box    int `json:"box,omitempty"`
	Ops    []c27op
}

func genC27(t *rapid.T) c27 {
	c := c27{Set: drawSet(t), Seed: rapid.Uint64().Draw(t, "seed"), Chunks: DrawChunks(t, "chunks"), Box: drawBox(t)}
	s := sr.ByName(c.Set)
	c.Keys = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sidhKey { return drawSidhKey(t, "key", s, 1) }), 1, 2).Draw(t, "keys")
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c27op {
		return c27op{rapid.SampledFrom([]string{"enc", "enc", "dec", "foreign", "foreign", "foreign", "bad", "short", "reset", "alloc", "fail", "enckind", "deckind"}).Draw(t, "op"), rapid.IntRange(0, 1).Draw(t, "key"), rapid.IntRange(0, 3).Draw(t, "ct"),
			rapid.IntRange(-3, 40).Draw(t, "n"), rapid.IntRange(0, 5000).Draw(t, "m"), rapid.IntRange(0, 20).Draw(t, "fail")}
	}), 1, 6).Draw(t, "ops")
	return c
}

func runC27(c c27, x *Ctx) error {
	s := sr.ByName(c.Set)
	var keys []*sikePair
	for _, k := range c.Keys {
		p, err := mkSike(c.Set, k)
		if err != nil {
			return err
		}
		keys = append(keys, p)
	}
	type res struct {
		ct, ss []byte
		err    string
		panics bool
	}
	var trace [2][]res
	for w, impl := range []string{"sidh", "mkem"} {
		rng := GoodRNG(c.Seed)
		rng.Chunks = c.Chunks
		src := &swapRNG{rng.New()}
		k := newKem(impl, int(c.Seed%16), c.Set, src)
		cts := [][]byte{make([]byte, s.CtLen())}
		var box sikeBox
		for i, op := range c.Ops {
			p, err := box.use(c.Set, c.Box, i, keys[op.Key%len(keys)])
			if err != nil {
				return err
			}
			r := res{}
			sz := func(n int) []byte {
				if n < 0 {
					n = 0
				}
				return make([]byte, n)
			}
			cg := Try(func() {
				switch op.Op {
				case "enc", "fail":
					r.ct, r.ss = sz(s.CtLen()+op.M%100), sz(s.Kem+op.N%10)
					old := src.r
					if op.Op == "fail" {
						f := GoodRNG(4)
						f.FailAt = op.Fail
						f.ErrKind = []string{"", "eof", "ueof"}[op.M%3]
						f.FailWithData = op.M/3%2 == 1
						if op.M/6%2 == 1 {
							f.Chunks = c.Chunks
						}
						src.r = f.New()
						defer func() { src.r = old }()
					}
					err = k.Encapsulate(r.ct, r.ss, p.pub)
					if err == nil {
						cts = append(cts, r.ct[:s.CtLen()])
					}
				case "dec", "bad":
					ct := append([]byte{}, cts[op.Ct%len(cts)]...)
					if op.Op == "bad" {
						ct[op.M%len(ct)] ^= 1 << uint(op.Fail%8)
					}
					r.ss = sz(s.Kem + op.N)
					err = k.Decapsulate(r.ss, p.prv, p.pub, ct)
				case "foreign": // a ciphertext somebody else made for this key
					ct := make([]byte, s.CtLen())
					sent := make([]byte, s.Kem)
					if err = newKem("sidh", 0, c.Set, GoodRNG(uint64(op.M)).New()).Encapsulate(ct, sent, p.pub); err != nil {
						return
					}
					if op.Fail == 20 {
						ct[op.M%len(ct)] ^= 1
					}
					r.ct, r.ss = ct, sz(s.Kem+op.N%10)
					err = k.Decapsulate(r.ss, p.prv, p.pub, ct)
				case "short":
					r.ss = sz(s.Kem)
					err = k.Decapsulate(r.ss, p.prv, p.pub, sz(s.CtLen()+op.N))
				case "enckind":
					r.ct, r.ss = sz(s.CtLen()), sz(s.Kem)
					_, q := c19pair([]int{434, 503, 751}[op.M%3], variants[op.M/3%3])
					if q.Variant() == sidh.KeyVariantSike && op.M%3 == op.Fail%3 {
						q = p.pub
					}
					if err = k.Encapsulate(r.ct, r.ss, q); err != nil {
						r.ct, r.ss = nil, nil
					}
				case "deckind":
					r.ss = sz(s.Kem)
					prv, pub := p.prv, p.pub
					if op.M&1 != 0 {
						prv, _ = c19pair([]int{434, 503, 751}[op.M/2%3], variants[op.M/6%3])
						if op.Fail&1 != 0 {
							prv = withS(prv, s.Msg)
						}
					}
					if op.N&1 != 0 {
						_, pub = c19pair([]int{434, 503, 751}[(op.N+3)/2%3], variants[(op.N+3)/6%3])
					}
					err = k.Decapsulate(r.ss, prv, pub, append([]byte{}, cts[op.Ct%len(cts)]...))
				case "reset":
					k.Reset()
				case "alloc":
					k.Allocate(sidhIDs[c.Set], src)
				}
			})
			if cg.Panicked && strings.HasSuffix(op.Op, "kind") {
				r.ct, r.ss = nil, nil
			}
			r.panics = cg.Panicked
			switch {
			case cg.Panicked || err == nil:
			case errors.Is(err, ErrRNG):
				r.err = "the RNG's"
			case errors.Is(err, io.EOF):
				r.err = "EOF"
			case errors.Is(err, io.ErrUnexpectedEOF):
				r.err = "unexpected EOF"
			default:
				r.err = "other"
			}
			trace[w] = append(trace[w], r)
		}
	}
	for i := range trace[0] {
		a, b := trace[0][i], trace[1][i]
		if a.err != b.err || a.panics != b.panics || !bytes.Equal(a.ct, b.ct) || !bytes.Equal(a.ss, b.ss) {
			return Errf("p%d op %d (%s): the KEM of sidh gives ct %s key %x error (%s) panic %v, the KEM of mkem ct %s key %x error (%s) panic %v", c.Set, i, c.Ops[i].Op,
				Short(a.ct), a.ss, a.err, a.panics, Short(b.ct), b.ss, b.err, b.panics)
		}
		if c.Ops[i].Op != "reset" && c.Ops[i].Op != "alloc" {
			x.NT()
		}
		x.Label("%s", c.Ops[i].Op)
	}
	return nil
}

func init() {
	as := []string{"SIKE as in the specification of the NIST submission (without domain separation in hashes, as in round 2); the reference was checked against the NIST known-answer tests; crypto/sha3 of the Go distribution"}
	cpuNote := "; CPU paths selected per case"
	Register(&Prop{ID: "C19", Suites: []*Suite{
		Enum(Suite{Name: "misuse", Rule: "every case: one wrong use out of a table (key variants, fields, buffer lengths, unallocated objects) for three fields and both KEM implementations must be refused without output, and the object works afterwards"}, enumC19, runC19),
		Gen(Suite{Name: "histories", Quick: 2880, Thorough: 20000, Rule: "history with at least one misuse of generated size between honest operations"}, genC19h, runC19h),
	}})
	Register(&Prop{ID: "C21", Suites: []*Suite{
		Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "one object used more often than a small counter can tell; every result compared"}, endurC21, runC21),
		Gen(Suite{Name: "histories", Quick: 6000, Thorough: 40000, Rule: "history over one or two KEM objects of both implementations with encapsulation, resets, reallocation, failures, modified ciphertexts, new keys, and at least one decapsulation of an honest ciphertext; buffers of any legal size" + cpuNote}, genC21(6), runC21),
		Enum(Suite{Name: "aimed", Rule: "round trips between the implementations whose ephemeral scalar has two chosen bytes (found by search)"}, enumC21a, runC21a),
		Gen(Suite{Name: "histories-noasm", Config: "noasm", Quick: 320, Thorough: 2000, Rule: "as histories, pure Go build"}, genC21(3), runC21),
		Gen(Suite{Name: "histories-386", Config: "386", Quick: 120, Thorough: 480, Rule: "as histories, 32-bit build"}, genC21(2), runC21),
	}})
	Register(&Prop{ID: "C22", Assumptions: as, Suites: []*Suite{
		Gen(Suite{Name: "spec", Quick: 2400, Thorough: 40000, Rule: "every case: one encapsulation or decapsulation (honest, for another public key, or well-formed but with a wrong ephemeral key) compared with the reference" + cpuNote}, genC22, runC22),
		Enum(Suite{Name: "aimed", Rule: "every case: one encapsulation or decapsulation whose ephemeral scalar has two chosen bytes (found by search) compared with the reference"}, func(tier string, emit func(c22)) {
			n := 1
			if tier == "thorough" {
				n = 20
			}
			for i := 0; i < n; i++ {
				for _, set := range []int{434, 503, 751} {
					eachAim(func(a aim) {
						for _, impl := range []string{"sidh", "mkem"} {
							for _, mode := range []string{"enc", "dec"} {
								s, sd := sr.ByName(set), seedBase()+uint64(i)
								emit(c22{Set: set, Impl: impl, Mode: mode, Key: sidhKey{B: RndFixed(s.Bytes[1], sd), S: RndFixed(s.Msg, sd+1)}, X: int(sd % 1000), Aim: &a})
							}
						}
					})
				}
			}
		}, runC22),
		Gen(Suite{Name: "spec-noasm", Config: "noasm", Quick: 240, Thorough: 2000, Rule: "as spec, pure Go build"}, genC22, runC22),
	}})
	Register(&Prop{ID: "C23", Assumptions: as, Suites: []*Suite{
		Gen(Suite{Name: "tamper", Quick: 4000, Thorough: 40000, Rule: "at least one ciphertext that differs from the honest one (bit flips, parts exchanged, other recipients, not reduced encodings, arbitrary strings)" + cpuNote}, genC23, runC23),
		Gen(Suite{Name: "tamper-noasm", Config: "noasm", Quick: 240, Thorough: 2000, Rule: "as tamper, pure Go build"}, genC23, runC23),
		Enum(Suite{Name: "every-byte", Rule: "a bit flip in every byte (thorough: every bit) of a ciphertext for three fields and both implementations"}, func(tier string, emit func(c23e)) {
			sd := seedBase()
			for _, set := range []int{434, 503, 751} {
				n := sr.ByName(set).CtLen()
				for i := 0; i < n; i++ {
					if tier == "thorough" {
						for b := 0; b < 8; b++ {
							emit(c23e{Set: set, Impl: []string{"sidh", "mkem"}[(i+b)%2], Pos: []int{8*i + b}, Seed: sd})
						}
						continue
					}
					emit(c23e{Set: set, Impl: []string{"sidh", "mkem"}[i%2], Pos: []int{8*i + int(sd+uint64(i*5))%8}, Seed: sd})
				}
				for i := 1; i <= 6; i++ {
					for _, impl := range []string{"sidh", "mkem"} {
						emit(c23e{Set: set, Impl: impl, Seed: sd, Lift: i})
					}
				}
				// pairs of flips that cancel out in sums or xors of bytes
				for i := 0; i < 24; i++ {
					a, b := (i*37)%n, (i*101+13)%n
					if a != b {
						emit(c23e{Set: set, Impl: []string{"sidh", "mkem"}[i%2], Pos: []int{8*a + i%8, 8*b + i%8}, Seed: sd})
					}
				}
			}
		}, runC23e),
	}})
	Register(&Prop{ID: "C24", Level: "fault_enumeration", Suites: []*Suite{
		Enum(Suite{Name: "faults", Rule: "every case: the RNG fails after a number of bytes up to the message length (when all were delivered, the operation must succeed); all byte counts, kinds of errors, and three read patterns for three KEMs and three fields"}, func(tier string, emit func(c24)) {
			for _, set := range []int{434, 503, 751} {
				for _, api := range []string{"sidh", "mkem", "multi"} {
					for f := 0; f <= sr.ByName(set).Msg; f++ {
						for v := 0; v < 18; v++ {
							if tier != "thorough" && f != sr.ByName(set).Msg && v != (f*5+set)%18 && v != (f*7+3)%18 && v != (f*11+8)%18 {
								continue
							}
							emit(c24{set, api, f, [][]int{nil, {1}, {0, 3, 5}}[v%3], []string{"", "eof", "ueof"}[v/3%3], v/9 == 1, (v+f)%2 == 1})
						}
					}
				}
			}
		}, runC24),
	}})
	Register(&Prop{ID: "C27", Suites: []*Suite{
		Gen(Suite{Name: "lockstep", Quick: 6000, Thorough: 30000, Rule: "the same history (honest, modified, wrongly sized, failing RNG) through both implementations; every result, error and panic compared"}, genC27, runC27),
	}})
}
