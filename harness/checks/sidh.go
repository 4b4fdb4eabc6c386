package checks

import (
	"bytes"
	"fmt"
	"io"
	"math/big"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	"pgregory.net/rapid"
	. "verif/core"
	"verif/ref/hwcpu"
	sr "verif/ref/sidhref"
)

// sidhSetCPU is set by a hook.
var sidhSetCPU func(bmi2, adx bool)

var sidhSet434 func(adx bool) bool

func sidhWithCPU(kind string, f func() error) error {
	h := hwcpu.Flags()
	if sidhSetCPU == nil || !h.Known {
		return f()
	}
	defer sidhSetCPU(h.BMI2, h.BMI2 && h.ADX)
	switch kind {
	case "adx434": // code for p434 that the library has but doesn't use
		if sidhSet434 != nil {
			old := sidhSet434(h.BMI2 && h.ADX)
			defer sidhSet434(old)
		}
	case "bmi2":
		sidhSetCPU(h.BMI2, false)
	case "plain":
		sidhSetCPU(false, false)
	default:
		sidhSetCPU(h.BMI2, h.BMI2 && h.ADX)
	}
	return f()
}

var sidhIDs = map[int]uint8{434: sidh.Fp434, 503: sidh.Fp503, 751: sidh.Fp751}

func drawSet(t *rapid.T) int {
	return rapid.SampledFrom([]int{434, 503, 751, 434, 503}).Draw(t, "set")
}

// variant of a key of a side
func variantOf(side int, sike bool) sidh.KeyVariant {
	if side == 0 {
		return sidh.KeyVariantSidhA
	}
	if sike {
		return sidh.KeyVariantSike
	}
	return sidh.KeyVariantSidhB
}

// maskScalar reduces b to the key space [0,2^bits).
func maskScalar(s *sr.Set, side int, b []byte) []byte {
	b = append([]byte{}, b...)
	n := s.Bits[side]
	for i := range b {
		switch {
		case i*8 >= n:
			b[i] = 0
		case n-i*8 < 8:
			b[i] &= 1<<uint(n-i*8) - 1
		}
	}
	return b
}

// sidhKey describes a private key.
type sidhKey struct {
	Gen  bool `json:"gen,omitempty"` // made by Generate with a stream starting with the scalar
	Top  bool `json:"top,omitempty"` // top bit set
	B    Blob `json:"b"`
	S    Blob `json:"s"` // SIKE only
	Seed uint64
}

func drawSidhKey(t *rapid.T, l string, s *sr.Set, side int) sidhKey {
	return sidhKey{rapid.IntRange(0, 3).Draw(t, l+".gen") == 0, rapid.Bool().Draw(t, l+".top"), DrawBlob(t, l, s.Bytes[side]),
		DrawBlob(t, l+".S", s.Msg), rapid.Uint64().Draw(t, l+".seed")}
}

// scalar of an imported key.
func (k sidhKey) scalar(s *sr.Set, side int) []byte {
	b := maskScalar(s, side, k.B.Bytes())
	if k.Top {
		n := s.Bits[side] - 1
		b[n/8] |= 1 << uint(n%8)
	}
	return b
}

// fill puts the key into prv and returns its secret scalar.
func (k sidhKey) fill(s *sr.Set, side int, prv *sidh.PrivateKey) (*big.Int, error) {
	if k.Gen {
		r := GoodRNG(k.Seed)
		r.Prefix = []Blob{k.B}
		if err := prv.Generate(r.New()); err != nil {
			return nil, Errf("Generate: %v", err)
		}
	} else {
		var b []byte
		if prv.Variant() == sidh.KeyVariantSike {
			b = k.S.Bytes()
		}
		if err := prv.Import(append(b, k.scalar(s, side)...)); err != nil {
			return nil, Errf("private key import: %v", err)
		}
	}
	out := make([]byte, prv.Size())
	prv.Export(out)
	b := out[len(out)-s.Bytes[side]:]
	return sr.LE(maskScalar(s, side, b)), nil
}

func sidhPub(p *sidh.PublicKey) []byte {
	b := make([]byte, p.Size())
	p.Export(b)
	return b
}

// --- C15 agreement

type c15 struct {
	Set    int    `json:"set"`
	CPU    string `json:"cpu"`
	Sike   bool   `json:"sike"`
	Rounds []c15r `json:"rounds"`
}
type c15r struct {
	A, B  sidhKey
	Wire  bool
	Extra int
	Funcs bool
	Fresh bool
}

func genC15(max int) func(t *rapid.T) c15 {
	return func(t *rapid.T) c15 {
		c := c15{Set: drawSet(t), CPU: drawCPU(t), Sike: rapid.Bool().Draw(t, "sike")}
		s := sr.ByName(c.Set)
		c.Rounds = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c15r {
			return c15r{drawSidhKey(t, "a", s, 0), drawSidhKey(t, "b", s, 1), rapid.Bool().Draw(t, "wire"),
				rapid.SampledFrom([]int{0, 0, 1, 7, 100}).Draw(t, "extra"), rapid.Bool().Draw(t, "funcs"), rapid.Bool().Draw(t, "fresh")}
		}), 1, max).Draw(t, "rounds")
		return c
	}
}

func runC15(c c15, x *Ctx) error { return sidhWithCPU(c.CPU, func() error { return runC15in(c, x) }) }

func runC15in(c c15, x *Ctx) error {
	s, id := sr.ByName(c.Set), sidhIDs[c.Set]
	var prv [2]*sidh.PrivateKey
	var pub [2]*sidh.PublicKey
	x.Label("p%d %s", c.Set, c.CPU)
	for ri, r := range c.Rounds {
		keys := []sidhKey{r.A, r.B}
		for side := 0; side < 2; side++ {
			v := variantOf(side, c.Sike)
			if prv[side] == nil || r.Fresh {
				if r.Funcs {
					prv[side], pub[side] = new(sidh.PrivateKey), new(sidh.PublicKey)
					prv[side].Init(id, v)
					pub[side].Init(id, v)
				} else {
					prv[side], pub[side] = sidh.NewPrivateKey(id, v), sidh.NewPublicKey(id, v)
				}
			}
			if _, err := keys[side].fill(s, side, prv[side]); err != nil {
				return err
			}
			if r.Funcs {
				sidh.GeneratePublicKey(pub[side], prv[side])
			} else {
				prv[side].GeneratePublicKey(pub[side])
			}
			if r.Wire {
				b := sidhPub(pub[side])
				if !r.Fresh { // the receiver's object held something else
					pub[side].Import(bytes.Repeat([]byte{0xa7}, len(b)))
				} else {
					pub[side] = sidh.NewPublicKey(id, v)
				}
				if err := pub[side].Import(b); err != nil {
					return Errf("round %d: import of an exported public key: %v", ri, err)
				}
			}
		}
		var ss [2][]byte
		for side := 0; side < 2; side++ {
			n := prv[side].SharedSecretSize()
			if n != s.SsLen() {
				return Errf("shared secret size %d", n)
			}
			g := NewGuard(n+r.Extra, ri)
			if r.Funcs {
				sidh.DeriveSecret(g.BCap(), pub[1-side], prv[side])
			} else {
				prv[side].DeriveSecret(g.BCap(), pub[1-side])
			}
			if err := g.Check(n); err != nil {
				return err
			}
			ss[side] = append([]byte{}, g.B()[:n]...)
		}
		if !bytes.Equal(ss[0], ss[1]) {
			return Errf("round %d, p%d: parties disagree: A has %s, B has %s", ri, c.Set, Short(ss[0]), Short(ss[1]))
		}
	}
	x.NT()
	return nil
}

// c15h: objects are used again and again with other contents.
type c15h struct {
	Set  int    `json:"set"`
	CPU  string `json:"cpu"`
	Sike bool   `json:"sike"`
	N    int    `json:"n"`
	Ops  []c15hop
}
type c15hop struct {
	Op   string `json:"op"` // key, public, wire, derive
	I, J int
	Side int
	K    sidhKey
}

func genC15h(t *rapid.T) c15h {
	c := c15h{Set: rapid.SampledFrom([]int{434, 434, 503, 503, 751}).Draw(t, "set"), CPU: drawCPU(t), Sike: rapid.Bool().Draw(t, "sike"), N: rapid.IntRange(1, 2).Draw(t, "n")}
	s := sr.ByName(c.Set)
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c15hop {
		o := c15hop{Op: rapid.SampledFrom([]string{"key", "key", "public", "wire", "bad", "derive", "derive", "derive", "derive"}).Draw(t, "op"),
			I: rapid.IntRange(0, 1).Draw(t, "i"), J: rapid.IntRange(0, 1).Draw(t, "j"), Side: rapid.IntRange(0, 1).Draw(t, "side")}
		side := o.Side
		if o.Op == "wire" {
			side = 1 - side
		}
		o.K = drawSidhKey(t, "k", s, side)
		return o
	}), 3, 14).Draw(t, "ops")
	return c
}

// runC15h keeps private- and public-key objects of both sides. Whatever was
// done with them, a derivation gives what the peer with fresh objects made of
// the same encodings derives.
func runC15h(c c15h, x *Ctx) error {
	return sidhWithCPU(c.CPU, func() error {
		s, id := sr.ByName(c.Set), sidhIDs[c.Set]
		export := func(p *sidh.PrivateKey) []byte {
			b := make([]byte, p.Size())
			p.Export(b)
			return b
		}
		fresh := func(side int, enc []byte) (*sidh.PrivateKey, *sidh.PublicKey, error) {
			p, q := sidh.NewPrivateKey(id, variantOf(side, c.Sike)), sidh.NewPublicKey(id, variantOf(side, c.Sike))
			if err := p.Import(enc); err != nil {
				return nil, nil, Errf("import of exported private key: %v", err)
			}
			p.GeneratePublicKey(q)
			return p, q, nil
		}
		var prv [2][]*sidh.PrivateKey
		var pub [2][]*sidh.PublicKey
		var enc, own, want [2][][]byte // private key in slot; owner of the public key in slot; its encoding
		for side := 0; side < 2; side++ {
			for i := 0; i < c.N; i++ {
				v := variantOf(side, c.Sike)
				p, q := sidh.NewPrivateKey(id, v), sidh.NewPublicKey(id, v)
				if err := p.Generate(GoodRNG(uint64(10*side + i)).New()); err != nil {
					return err
				}
				p.GeneratePublicKey(q)
				prv[side], pub[side] = append(prv[side], p), append(pub[side], q)
				enc[side] = append(enc[side], export(p))
				own[side], want[side] = append(own[side], enc[side][i]), append(want[side], sidhPub(q))
			}
		}
		n := 0
		for oi, o := range c.Ops {
			i, j, a, b := o.I%c.N, o.J%c.N, o.Side, 1-o.Side
			switch o.Op {
			case "key":
				if _, err := o.K.fill(s, a, prv[a][i]); err != nil {
					return err
				}
				enc[a][i] = export(prv[a][i])
			case "public":
				prv[a][i].GeneratePublicKey(pub[a][j])
				own[a][j] = enc[a][i]
				_, q, err := fresh(a, enc[a][i])
				if err != nil {
					return err
				}
				if want[a][j] = sidhPub(q); !bytes.Equal(want[a][j], sidhPub(pub[a][j])) {
					return Errf("op %d: p%d: public key of reused objects is %s, of fresh ones %s", oi, c.Set, Short(sidhPub(pub[a][j])), Short(want[a][j]))
				}
			case "wire":
				k := sidh.NewPrivateKey(id, variantOf(b, c.Sike))
				if _, err := o.K.fill(s, b, k); err != nil {
					return err
				}
				own[b][j] = export(k)
				_, q, err := fresh(b, own[b][j])
				if err != nil {
					return err
				}
				want[b][j] = sidhPub(q)
				if err := pub[b][j].Import(append([]byte{}, want[b][j]...)); err != nil {
					return Errf("op %d: public key import: %v", oi, err)
				}
			case "bad": // a refused call in between
				Try(func() { prv[a][i].DeriveSecret(make([]byte, s.SsLen()), pub[a][j]) })
				if err := pub[b][j].Import(make([]byte, s.PkLen()-1)); err == nil {
					return Errf("op %d: short public key accepted", oi)
				}
			case "derive":
				ss := bytes.Repeat([]byte{byte(oi)}, s.SsLen())
				prv[a][i].DeriveSecret(ss, pub[b][j])
				peer, _, err := fresh(b, own[b][j])
				if err != nil {
					return err
				}
				_, mine, err := fresh(a, enc[a][i])
				if err != nil {
					return err
				}
				w := make([]byte, s.SsLen())
				peer.DeriveSecret(w, mine)
				if !bytes.Equal(ss, w) {
					return Errf("op %d: p%d: parties disagree after reuse of objects: %s, the peer derives %s", oi, c.Set, Short(ss), Short(w))
				}
				n++
			}
			for side := range pub {
				for k := range pub[side] {
					if !bytes.Equal(sidhPub(pub[side][k]), want[side][k]) || !bytes.Equal(export(prv[side][k]), enc[side][k]) {
						return Errf("op %d (%s): a key that wasn't written to changed (side %d, slot %d)", oi, o.Op, side, k)
					}
				}
			}
		}
		x.Label("%d derivations", n)
		if n > 1 {
			x.NT()
		}
		return nil
	})
}

// --- C16 against the specification

type c16 struct {
	Set  int    `json:"set"`
	CPU  string `json:"cpu"`
	Side int    `json:"side"`
	Sike bool   `json:"sike"`
	Mine sidhKey
	Peer sidhKey
	Tr   []string // transformations of the peer's key
	K    Blob
	Pub  bool // compare public keys, too
	Rnd  uint64
}

func genC16(t *rapid.T) c16 {
	c := c16{Set: drawSet(t), CPU: drawCPU(t), Side: rapid.IntRange(0, 1).Draw(t, "side"), Sike: rapid.Bool().Draw(t, "sike")}
	s := sr.ByName(c.Set)
	c.Mine = drawSidhKey(t, "mine", s, c.Side)
	c.Peer = drawSidhKey(t, "peer", s, 1-c.Side)
	c.Tr = rapid.SliceOfN(rapid.SampledFrom([]string{"neg", "basis", "lift", "start", "conj", "scale", "perm"}), 0, 4).Draw(t, "tr")
	c.K = DrawBlob(t, "k", s.Bytes[c.Side])
	c.Rnd = rapid.Uint64().Draw(t, "rnd")
	return c
}

// lift returns other encodings of coordinates (not reduced), where there is
// room; for odd seeds of one coordinate only.
func lift(s *sr.Set, b []byte, seed uint64) []byte {
	p := NewPRNG(seed)
	b = append([]byte{}, b...)
	for i := 0; i < 6; i++ {
		one := seed&1 > 0
		if one && int(seed/2%6) != i {
			continue
		}
		e := b[i*s.Len : (i+1)*s.Len]
		v := sr.LE(e)
		room := new(big.Int).Lsh(big.NewInt(1), uint(8*s.Len))
		room.Sub(room, v)
		room.Sub(room, big.NewInt(1))
		room.Div(room, s.P)
		if room.Sign() > 0 {
			k := new(big.Int).SetUint64(p.U64())
			if one {
				k.Mod(k, room)
				k.Add(k, big.NewInt(1))
			} else {
				k.Mod(k, room.Add(room, big.NewInt(1)))
			}
			v.Add(v, k.Mul(k, s.P))
		}
		copy(e, sr.ToLE(v, s.Len))
	}
	return b
}

// otherPoints replaces a valid public key (for the owner of a key of a side) by another one.
func otherPoints(s *sr.Set, side int, how string, rnd uint64, pp *[3]sr.Fp2) {
	switch how {
	case "start": // the trivial isogeny
		*pp = s.Base[side]
	case "conj": // Galois conjugate
		for i := range pp {
			var z sr.El
			s.F.Sub(&pp[i].B, &z, &pp[i].B)
		}
	case "scale": // other generators of the same groups
		A := s.Coeff(pp)
		k := big.NewInt(int64(6*(rnd%1000) + 5))
		for i := range pp {
			a := s.MulPt(&sr.Pt{X: pp[i], Z: s.One}, &A, k)
			pp[i] = s.Affine(&a)
		}
	case "perm": // swaps P and Q or Q and P-Q
		switch {
		case side == 0:
			// could put the kernel above (0,0), which the specification's
			// choice of points rules out
		case rnd&1 == 0:
			pp[0], pp[1] = pp[1], pp[0]
		default:
			pp[1], pp[2] = pp[2], pp[1]
		}
	}
}

func runC16(c c16, x *Ctx) error { return sidhWithCPU(c.CPU, func() error { return runC16in(c, x) }) }

func runC16in(c c16, x *Ctx) error {
	s, id := sr.ByName(c.Set), sidhIDs[c.Set]
	va, vb := variantOf(c.Side, c.Sike), variantOf(1-c.Side, c.Sike)
	prv, pub := sidh.NewPrivateKey(id, va), sidh.NewPublicKey(id, va)
	m, err := c.Mine.fill(s, c.Side, prv)
	if err != nil {
		return err
	}
	prv.GeneratePublicKey(pub)
	w := s.Public(c.Side, m)
	if g, w := sidhPub(pub), s.Enc(w[:]...); !bytes.Equal(g, w) {
		return Errf("p%d, side %d, private key %x: public key %s, the specification gives %s", c.Set, c.Side, m, Short(g), Short(w))
	}
	pp := s.Public(1-c.Side, sr.LE(c.Peer.scalar(s, 1-c.Side)))
	raw := false
	for _, tr := range c.Tr {
		x.Label("%s", tr)
		switch tr {
		case "neg":
			for i := range pp {
				s.Neg(&pp[i], &pp[i])
			}
		case "basis":
			A := s.Coeff(&pp)
			k := sr.LE(maskScalar(s, c.Side, c.K.Bytes()))
			k.Add(k, big.NewInt(1))
			a := s.Ladder3(&pp[0], &pp[1], &pp[2], &A, k)
			b := s.Ladder3(&pp[0], &pp[1], &pp[2], &A, k.Sub(k, big.NewInt(1)))
			pp[0], pp[2] = s.Affine(&a), s.Affine(&b)
		case "start", "conj", "scale", "perm":
			otherPoints(s, c.Side, tr, c.Rnd, &pp)
		case "lift":
			raw = true
		}
	}
	enc := s.Enc(pp[:]...)
	if raw {
		enc = lift(s, enc, c.Rnd)
	}
	peer := sidh.NewPublicKey(id, vb)
	if err := peer.Import(enc); err != nil {
		if raw {
			x.Label("not reduced: refused")
			return nil
		}
		return Errf("public key import: %v", err)
	}
	ss := make([]byte, s.SsLen())
	prv.DeriveSecret(ss, peer)
	j := s.Secret(c.Side, m, &pp)
	if w := s.Enc(j); !bytes.Equal(ss, w) {
		return Errf("p%d, side %d, private key %x, peer's key %x: secret %s, the specification gives %s", c.Set, c.Side, m, enc, Short(ss), Short(w))
	}
	x.NT()
	return nil
}

// --- C17 encodings

type c17op struct {
	Op  string `json:"op"`
	K   int    `json:"k"` // object
	C   []Blob `json:"c,omitempty"`
	N   int    `json:"n,omitempty"`
	Off int    `json:"off,omitempty"`
	New c17obj `json:"new"`
}
type c17 struct {
	Objs []c17obj `json:"objs"`
	Ops  []c17op  `json:"ops"`
}
type c17obj struct {
	Set  int  `json:"set"`
	Side int  `json:"side"`
	Sike bool `json:"sike"`
	Init bool `json:"init"`
}

func genC17(heavy bool) func(t *rapid.T) c17 {
	return func(t *rapid.T) c17 {
		c := c17{Objs: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c17obj {
			return c17obj{drawSet(t), rapid.IntRange(0, 1).Draw(t, "side"), rapid.Bool().Draw(t, "sike"), rapid.Bool().Draw(t, "init")}
		}), 1, 3).Draw(t, "objs")}
		ops := []string{"pubin", "pubin", "pubin", "pubout", "prvin", "prvin", "prvout", "pubbad", "prvbad", "gen", "publift", "reinit"}
		if heavy {
			ops = append(ops, "pubgen", "pubgen")
		}
		c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c17op {
			o := c17op{Op: rapid.SampledFrom(ops).Draw(t, "op"), K: rapid.IntRange(0, 2).Draw(t, "k")}
			switch o.Op {
			case "pubin", "publift":
				for i := 0; i < 6; i++ {
					o.C = append(o.C, DrawBlob(t, "c", 94))
				}
				o.N = rapid.IntRange(0, 3).Draw(t, "n")
			case "reinit":
				o.New = c17obj{Set: drawSet(t), Side: rapid.IntRange(0, 1).Draw(t, "side"), Sike: rapid.Bool().Draw(t, "sike"), Init: rapid.Bool().Draw(t, "init")}
			case "prvin":
				o.C = []Blob{DrawBlob(t, "c", 100)}
			case "pubbad", "prvbad":
				o.N = rapid.SampledFrom([]int{-1000, -100, -8, -2, -1, 1, 2, 8, 100}).Draw(t, "n")
				o.C = []Blob{DrawBlob(t, "c", 800)}
			case "gen":
				o.C = []Blob{DrawBlob(t, "c", 100)}
			default:
				o.N = rapid.SampledFrom([]int{0, 0, 1, 5, 64}).Draw(t, "n")
			}
			o.Off = rapid.IntRange(0, 15).Draw(t, "off")
			return o
		}), 1, 10).Draw(t, "ops")
		return c
	}
}

func runC17(c c17, x *Ctx) error {
	n := len(c.Objs)
	c.Objs = append([]c17obj{}, c.Objs...)
	pubs := make([]*sidh.PublicKey, n)
	prvs := make([]*sidh.PrivateKey, n)
	mpub := make([][]byte, n)
	mprv := make([][]byte, n)
	for i, o := range c.Objs {
		s, id, v := sr.ByName(o.Set), sidhIDs[o.Set], variantOf(o.Side, o.Sike)
		if o.Init {
			pubs[i], prvs[i] = new(sidh.PublicKey), new(sidh.PrivateKey)
			pubs[i].Init(id, v)
			prvs[i].Init(id, v)
		} else {
			pubs[i], prvs[i] = sidh.NewPublicKey(id, v), sidh.NewPrivateKey(id, v)
		}
		l := s.Bytes[o.Side]
		if v == sidh.KeyVariantSike {
			l += s.Msg
		}
		if pubs[i].Size() != s.PkLen() || prvs[i].Size() != l || prvs[i].SharedSecretSize() != s.SsLen() || pubs[i].Variant() != v || prvs[i].Variant() != v {
			return Errf("p%d variant %d: sizes %d, %d, %d, variants %d, %d", o.Set, v, pubs[i].Size(), prvs[i].Size(), prvs[i].SharedSecretSize(), pubs[i].Variant(), prvs[i].Variant())
		}
		mpub[i] = make([]byte, s.PkLen())
		mprv[i] = make([]byte, l)
	}
	prvLen := func(o c17obj) int {
		l := sr.ByName(o.Set).Bytes[o.Side]
		if variantOf(o.Side, o.Sike) == sidh.KeyVariantSike {
			l += sr.ByName(o.Set).Msg
		}
		return l
	}
	acc := 0
	for oi, op := range c.Ops {
		k := op.K % n
		o := c.Objs[k]
		s := sr.ByName(o.Set)
		switch op.Op {
		case "reinit": // what the keys hold until the next import or generation isn't specified
			o = op.New
			c.Objs[k] = o
			id, v := sidhIDs[o.Set], variantOf(o.Side, o.Sike)
			pubs[k].Init(id, v)
			prvs[k].Init(id, v)
			mpub[k], mprv[k] = nil, nil
			s = sr.ByName(o.Set)
			if pubs[k].Size() != s.PkLen() || prvs[k].Size() != prvLen(o) || prvs[k].SharedSecretSize() != s.SsLen() || pubs[k].Variant() != v || prvs[k].Variant() != v {
				return Errf("op %d: p%d variant %d: sizes %d, %d, %d, variants %d, %d", oi, o.Set, v, pubs[k].Size(), prvs[k].Size(), prvs[k].SharedSecretSize(), pubs[k].Variant(), prvs[k].Variant())
			}
			x.Label("initialized again")
		case "pubin", "publift":
			var b []byte
			for i := 0; i < 6; i++ {
				v := sr.LE(op.C[i].Bytes()[:s.Len])
				if op.N == i { // near the modulus
					v.Sub(s.P, new(big.Int).And(v, big.NewInt(15)))
				}
				b = append(b, sr.ToLE(v.Mod(v, s.P), s.Len)...)
			}
			in := b
			if op.Op == "publift" {
				in = lift(s, b, uint64(op.N)+op.C[0].Seed)
			}
			p := PageOf(in)
			err := pubs[k].Import(p.B)
			same := bytes.Equal(p.B, in)
			for i := range p.B {
				p.B[i] ^= 0xff
			}
			p.Free()
			if !same {
				return Errf("op %d: Import changed its input", oi)
			}
			if err != nil {
				if op.Op == "publift" {
					x.Label("not reduced: refused")
					break
				}
				return Errf("op %d: public key import: %v", oi, err)
			}
			mpub[k] = b
			acc++
		case "prvin":
			b := op.C[0].Bytes()[:prvLen(o)]
			sc := b[len(b)-s.Bytes[o.Side]:]
			copy(sc, maskScalar(s, o.Side, sc))
			p := PageOf(b)
			err := prvs[k].Import(p.B)
			same := bytes.Equal(p.B, b)
			for i := range p.B { // the key must not alias the input
				p.B[i] ^= 0xff
			}
			if err != nil || !same {
				return Errf("op %d: private key import: %v, input intact: %v", oi, err, same)
			}
			mprv[k] = append([]byte{}, b...)
			out := make([]byte, len(b))
			prvs[k].Export(out)
			p.Free()
			if !bytes.Equal(out, b) {
				return Errf("op %d: imported private key %s, exported %s", oi, Short(b), Short(out))
			}
			acc++
		case "pubbad", "prvbad":
			l := s.PkLen()
			if op.Op == "prvbad" {
				l = prvLen(o)
			}
			if l += op.N; l < 0 {
				l = 0
			}
			b := op.C[0].Bytes()[:l]
			var err error
			cg := Try(func() {
				if op.Op == "pubbad" {
					err = pubs[k].Import(b)
				} else {
					err = prvs[k].Import(b)
				}
			})
			if cg.Panicked {
				return Errf("op %d: import of %d bytes panics instead of returning an error: %v", oi, l, cg.Val)
			}
			if err == nil {
				return Errf("op %d: %s of %d bytes accepted", oi, op.Op, l)
			}
			x.Label("refused")
		case "gen":
			r := GoodRNG(uint64(op.Off))
			r.Prefix = op.C
			if err := prvs[k].Generate(r.New()); err != nil {
				return Errf("op %d: Generate: %v", oi, err)
			}
			mprv[k] = make([]byte, prvLen(o))
			prvs[k].Export(mprv[k])
		case "pubgen":
			if mprv[k] == nil {
				break
			}
			prvs[k].GeneratePublicKey(pubs[k])
			mpub[k] = sidhPub(pubs[k])
			// what was generated and what is imported from its encoding is the same
			q := sidh.NewPublicKey(sidhIDs[o.Set], pubs[k].Variant())
			if err := q.Import(mpub[k]); err != nil {
				return Errf("op %d: import of exported key: %v", oi, err)
			}
			if !bytes.Equal(sidhPub(q), mpub[k]) {
				return Errf("op %d: public key %s changes when imported and exported", oi, Short(mpub[k]))
			}
			acc++
		case "pubout":
			if mpub[k] == nil {
				break
			}
			g := NewGuard(len(mpub[k])+op.N, op.Off)
			pubs[k].Export(g.BCap())
			if !bytes.Equal(g.B()[:len(mpub[k])], mpub[k]) {
				return Errf("op %d: public key export: got %s want %s", oi, Short(g.B()), Short(mpub[k]))
			}
			if err := g.Check(len(mpub[k])); err != nil {
				return Errf("op %d: public key export: %v", oi, err)
			}
		case "prvout":
			if mprv[k] == nil {
				break
			}
			g := NewGuard(prvLen(o)+op.N, op.Off)
			prvs[k].Export(g.BCap())
			if !bytes.Equal(g.B()[:len(mprv[k])], mprv[k]) {
				return Errf("op %d: private key export: got %s want %s", oi, Short(g.B()), Short(mprv[k]))
			}
			if err := g.Check(len(mprv[k])); err != nil {
				return Errf("op %d: private key export: %v", oi, err)
			}
		}
		for i := range pubs {
			if b := sidhPub(pubs[i]); mpub[i] != nil && !bytes.Equal(b, mpub[i]) {
				return Errf("after op %d (%s on key %d): public key %d (p%d) is %x, want %x", oi, op.Op, k, i, c.Objs[i].Set, b, mpub[i])
			}
			b := make([]byte, prvs[i].Size())
			prvs[i].Export(b)
			if mprv[i] != nil && !bytes.Equal(b, mprv[i]) {
				return Errf("after op %d (%s on key %d): private key %d (p%d) is %x, want %x", oi, op.Op, k, i, c.Objs[i].Set, b, mprv[i])
			}
		}
	}
	if acc > 0 {
		x.NT()
	}
	return nil
}

// c17l: imports of every wrong length.
type c17l struct {
	Set  int  `json:"set"`
	Side int  `json:"side"`
	Sike bool `json:"sike"`
	Pub  bool `json:"pub"`
	Fill int
}

func runC17l(c c17l, x *Ctx) error {
	id, v := sidhIDs[c.Set], variantOf(c.Side, c.Sike)
	prv, pub := sidh.NewPrivateKey(id, v), sidh.NewPublicKey(id, v)
	if err := prv.Generate(GoodRNG(5).New()); err != nil {
		return err
	}
	prv.GeneratePublicKey(pub)
	var imp func([]byte) error = prv.Import
	size := prv.Size()
	get := func() []byte { b := make([]byte, prv.Size()); prv.Export(b); return b }
	if c.Pub {
		imp, size = pub.Import, pub.Size()
		get = func() []byte { return sidhPub(pub) }
	}
	good := get()
	for n := 0; n <= 2*size+64; n++ {
		if n == size {
			continue
		}
		in := make([]byte, n)
		switch c.Fill {
		case 0:
			copy(in, good)
		case 1:
			NewPRNG(uint64(n)).Fill(in)
			if n > 0 {
				in[n-1] = 0
			}
		}
		var err error
		cg := Try(func() { err = imp(in) })
		if cg.Panicked {
			return Errf("p%d variant %d: import of %d instead of %d bytes panics instead of returning an error: %v", c.Set, v, n, size, cg.Val)
		}
		if err == nil {
			return Errf("p%d variant %d: %d instead of %d bytes accepted", c.Set, v, n, size)
		}
	}
	if err := imp(good); err != nil || !bytes.Equal(get(), good) {
		return Errf("p%d variant %d: import after refusals: %v", c.Set, v, err)
	}
	x.NT()
	return nil
}

// --- C18 key generation

type c18 struct {
	Set   int  `json:"set"`
	Side  int  `json:"side"`
	Sike  bool `json:"sike"`
	R     RNG  `json:"rng"`
	Fail  int  `json:"fail"` // -1: never
	Dirty Blob
	Funcs bool
}

func genC18(t *rapid.T) c18 {
	c := c18{Set: drawSet(t), Side: rapid.IntRange(0, 1).Draw(t, "side"), Sike: rapid.Bool().Draw(t, "sike"), R: GoodRNG(rapid.Uint64().Draw(t, "seed")), Fail: -1}
	c.Dirty = DrawBlob(t, "dirty", 100)
	c.Funcs = rapid.Bool().Draw(t, "funcs")
	if rapid.Bool().Draw(t, "pre") {
		c.R.Prefix = []Blob{DrawBlob(t, "prefix", rapid.IntRange(1, 90).Draw(t, "plen"))}
	}
	c.R.Chunks = DrawChunks(t, "chunks")
	c.R.ErrKind = rapid.SampledFrom([]string{"", "eof", "ueof"}).Draw(t, "errkind")
	c.R.FailWithData = rapid.Bool().Draw(t, "fwd")
	if rapid.Bool().Draw(t, "fails") {
		c.Fail = rapid.IntRange(0, 90).Draw(t, "fail")
	}
	return c
}

func inKeySpace(s *sr.Set, side int, b []byte) error {
	v := sr.LE(b[len(b)-s.Bytes[side]:])
	if v.BitLen() != s.Bits[side] {
		return Errf("p%d side %d: generated private key %x has %d bits, the key space is [2^%d, 2^%d)", s.Name, side, v, v.BitLen(), s.Bits[side]-1, s.Bits[side])
	}
	return nil
}

// sampled says if a key is what the specification's sampling makes of the
// source: the secret for rejection (SIKE), then the scalar as a little-endian
// number, cut to the size of the key space and with the highest bit set.
func sampled(s *sr.Set, side int, key []byte, r RNG) error {
	b := make([]byte, len(key))
	if _, err := io.ReadFull(r.New(), b); err != nil {
		return Errf("harness: %v", err)
	}
	p := len(key) - s.Bytes[side]
	n := sr.LE(b[p:])
	n.And(n, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(s.Bits[side])), big.NewInt(1)))
	n.SetBit(n, s.Bits[side]-1, 1)
	if !bytes.Equal(key[:p], b[:p]) || sr.LE(key[p:]).Cmp(n) != 0 {
		return Errf("p%d side %d: the source delivered %x, the generated key is %x", s.Name, side, b, key)
	}
	return nil
}

// c18d: every value of every byte of the randomness.
type c18d struct {
	Set  int  `json:"set"`
	Side int  `json:"side"`
	Sike bool `json:"sike"`
	Pos  int  `json:"pos"`
	Val  int  `json:"value"` // -1: all of them
}

func enumC18d(tier string, emit func(c18d)) {
	eachKeyKind(func(set, side int, sike bool) {
		s := sr.ByName(set)
		l := s.Bytes[side]
		if sike {
			l += s.Msg
		}
		for i := 0; i < l; i++ {
			emit(c18d{set, side, sike, i, -1})
		}
	})
}

func runC18d(c c18d, x *Ctx) error {
	s, id, v := sr.ByName(c.Set), sidhIDs[c.Set], variantOf(c.Side, c.Sike)
	k := sidh.NewPrivateKey(id, v)
	b, out := make([]byte, 100), make([]byte, k.Size())
	for val := 0; val < 256; val++ {
		if c.Val >= 0 && val != c.Val {
			continue
		}
		for _, fill := range []int{0, 1, 2, 3} {
			switch fill {
			case 0, 1:
				for i := range b {
					b[i] = byte(-fill)
				}
			default:
				NewPRNG(uint64(c.Set*1000+c.Pos*256+val)*2 + uint64(fill)).Fill(b)
			}
			b[c.Pos] = byte(val)
			r := GoodRNG(1)
			r.Prefix = []Blob{RawBlob(b)}
			if err := k.Generate(r.New()); err != nil {
				return Errf("Generate: %v", err)
			}
			k.Export(out)
			if err := sampled(s, c.Side, out, r); err != nil {
				return err
			}
		}
	}
	x.NT()
	return nil
}

func runC18(c c18, x *Ctx) error {
	s, id, v := sr.ByName(c.Set), sidhIDs[c.Set], variantOf(c.Side, c.Sike)
	gen := func(prv *sidh.PrivateKey, r *Reader) error {
		if c.Funcs {
			return sidh.GeneratePrivateKey(prv, r)
		}
		return prv.Generate(r)
	}
	ref := sidh.NewPrivateKey(id, v)
	plain := c.R
	plain.Chunks = nil
	rr := plain.New()
	if err := gen(ref, rr); err != nil {
		return Errf("Generate: %v", err)
	}
	need := rr.N
	want := make([]byte, ref.Size())
	ref.Export(want)
	if err := inKeySpace(s, c.Side, want); err != nil {
		return err
	}
	if err := sampled(s, c.Side, want, plain); err != nil {
		return err
	}
	prv := sidh.NewPrivateKey(id, v)
	prv.Import(c.Dirty.Bytes()[:prv.Size()])
	r := c.R
	fails := c.Fail >= 0 && c.Fail < need
	if fails {
		r.FailAt = c.Fail
	} else if c.Fail >= need {
		r.FailAt = need // all that is needed is delivered
	}
	err := gen(prv, r.New())
	if fails {
		x.NT()
		x.Label("failing RNG")
		if err == nil {
			return Errf("p%d: private key generation reported success although the RNG failed after %d of %d bytes", c.Set, c.Fail, need)
		}
		// recovers
		if err := gen(prv, c.R.New()); err != nil {
			return Errf("Generate after a failure: %v", err)
		}
	} else if err != nil {
		return Errf("Generate: %v, the RNG didn't fail", err)
	}
	got := make([]byte, prv.Size())
	prv.Export(got)
	if !bytes.Equal(got, want) {
		return Errf("p%d: generated key depends on read sizes %v or the previous content: %x, %x", c.Set, c.R.Chunks, got, want)
	}
	if len(c.R.Chunks) > 0 || len(c.R.Prefix) > 0 {
		x.NT()
	}
	return nil
}

// c18b: no entropy is lost: every change of a bit of the randomness changes the
// key, except for the bits which don't fit.
type c18b struct {
	Set  int    `json:"set"`
	Side int    `json:"side"`
	Sike bool   `json:"sike"`
	Seed uint64 `json:"seed"`
}

func runC18b(c c18b, x *Ctx) error {
	s, id, v := sr.ByName(c.Set), sidhIDs[c.Set], variantOf(c.Side, c.Sike)
	gen := func(b []byte) ([]byte, int) {
		r := GoodRNG(1)
		r.Prefix = []Blob{RawBlob(b)}
		rd := r.New()
		k := sidh.NewPrivateKey(id, v)
		if err := k.Generate(rd); err != nil {
			panic(err)
		}
		o := make([]byte, k.Size())
		k.Export(o)
		return o, rd.N
	}
	stream := make([]byte, 200)
	NewPRNG(c.Seed).Fill(stream)
	base, n := gen(stream)
	if n > len(stream) {
		return Errf("generation takes %d bytes", n)
	}
	free := s.Bits[c.Side] - 1
	if v == sidh.KeyVariantSike {
		free += 8 * s.Msg
	}
	seen := map[string]bool{string(base): true}
	live := 0
	for i := 0; i < 8*n; i++ {
		b := append([]byte{}, stream...)
		b[i/8] ^= 1 << uint(i%8)
		o, _ := gen(b)
		if err := inKeySpace(s, c.Side, o); err != nil {
			return err
		}
		if !seen[string(o)] {
			live++
			seen[string(o)] = true
		}
	}
	if live < free {
		return Errf("p%d variant %d: only %d of the %d free bits of a private key depend on the randomness", c.Set, v, live, free)
	}
	x.NT()
	return nil
}

// c18c: distribution of the bits.
type c18c struct {
	Set  int    `json:"set"`
	Side int    `json:"side"`
	Sike bool   `json:"sike"`
	Seed uint64 `json:"seed"`
	Keys int    `json:"keys"`
}

func runC18c(c c18c, x *Ctx) error {
	s, id, v := sr.ByName(c.Set), sidhIDs[c.Set], variantOf(c.Side, c.Sike)
	r := GoodRNG(c.Seed)
	r.Budget = 1 << 30
	rd := r.New()
	k := sidh.NewPrivateKey(id, v)
	l := k.Size()
	ones := make([]int, 8*l)
	for i := 0; i < c.Keys; i++ {
		if err := k.Generate(rd); err != nil {
			return Errf("Generate: %v", err)
		}
		b := make([]byte, l)
		k.Export(b)
		if err := inKeySpace(s, c.Side, b); err != nil {
			return err
		}
		for j := range ones {
			ones[j] += int(b[j/8] >> uint(j%8) & 1)
		}
	}
	pre := 8 * (l - s.Bytes[c.Side])
	for j, n := range ones {
		if j >= pre+s.Bits[c.Side]-1 {
			break
		}
		// 10 standard deviations
		d := float64(n) - float64(c.Keys)/2
		if d*d > 25*float64(c.Keys) {
			return Errf("p%d variant %d: bit %d of the private key is set in %d of %d keys", c.Set, v, j, n, c.Keys)
		}
	}
	x.NT()
	return nil
}

// --- C20 field arithmetic

type sidhFpOps struct {
	cswap            func(x, y *common.Fp, c uint8)
	add, sub         func(z, x, y *common.Fp)
	adl, sul         func(z, x, y *common.FpX2)
	mod              func(x *common.Fp)
	mul              func(z *common.FpX2, x, y *common.Fp)
	rdc              func(z *common.Fp, x *common.FpX2)
	add2, sub2, mul2 func(z, x, y *common.Fp2)
	sqr2, inv2       func(z, x *common.Fp2)
	to, from         func(z, x *common.Fp2)
}

var sidhFp map[int]*sidhFpOps

type c20 struct {
	Set   int    `json:"set"`
	CPU   string `json:"cpu"`
	Op    string `json:"op"`
	X     []Blob `json:"x"` // four field elements or two double-width ones
	Near  []int  `json:"near"`
	Alias string `json:"alias"`
	C     uint8  `json:"c"`
	Solve solve  `json:"solve,omitempty"`
}

func genC20(t *rapid.T) c20 {
	c := c20{Set: drawSet(t), CPU: drawCPU(t), Op: rapid.SampledFrom([]string{"add", "sub", "mul", "mul", "rdc", "rdc", "rdc", "mod", "adl", "sul", "cswap", "add2", "sub2", "mul2", "mul2", "sqr2", "sqr2", "inv2", "to", "from"}).Draw(t, "op")}
	if c.Set == 434 && rapid.IntRange(0, 3).Draw(t, "adx434") == 0 {
		c.CPU = "adx434"
	}
	for i := 0; i < 4; i++ {
		c.X = append(c.X, DrawBlob(t, "x", 192))
		c.Near = append(c.Near, rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "near"))
	}
	c.Alias = rapid.SampledFrom([]string{"no", "no", "zx", "zy", "xy", "all"}).Draw(t, "alias")
	c.C = rapid.SampledFrom([]uint8{0, 1}).Draw(t, "c")
	switch c.Op {
	case "mul", "mul2", "sqr2":
		c.Solve = drawSolve(t, solveMulKinds)
	case "rdc":
		c.Solve = drawSolve(t, solveRdcKinds)
	case "add", "sub", "add2", "sub2":
		c.Solve = drawSolve(t, solveAddKinds)
	}
	return c
}

func toFp(v *big.Int) (r common.Fp) {
	b := v.FillBytes(make([]byte, 96))
	for i := 0; i < 96; i++ {
		r[i/8] |= uint64(b[95-i]) << uint(8*(i%8))
	}
	return
}
func toFpX2(v *big.Int) (r common.FpX2) {
	b := v.FillBytes(make([]byte, 192))
	for i := 0; i < 192; i++ {
		r[i/8] |= uint64(b[191-i]) << uint(8*(i%8))
	}
	return
}

func runC20(c c20, x *Ctx) error { return sidhWithCPU(c.CPU, func() error { return runC20in(c, x) }) }

func runC20in(c c20, x *Ctx) error {
	s, o := sr.ByName(c.Set), sidhFp[c.Set]
	p := s.P
	words := (p.BitLen() + 63) / 64
	R := new(big.Int).Lsh(big.NewInt(1), uint(64*words))
	p2 := new(big.Int).Lsh(p, 1)
	ri := new(big.Int).ModInverse(R, p)
	// an element in [0,2p), the range the arithmetic works on
	el := func(i int) *big.Int {
		v := sr.LE(c.X[i].Bytes()[:8*words])
		if c.Near[i] > 0 { // near p or 2p
			w := new(big.Int).Mul(p, big.NewInt(int64(c.Near[i])))
			d := new(big.Int).And(v, big.NewInt(7))
			if c.Near[i] == 1 && v.Bit(5) == 1 {
				return w.Add(w, d)
			}
			return w.Sub(w, d.Add(d, big.NewInt(1)))
		}
		return v.Mod(v, p2)
	}
	wide := func(i int, max *big.Int) *big.Int {
		v := sr.LE(c.X[i].Bytes()[:16*words])
		if c.Near[i] > 0 {
			d := new(big.Int).And(v, big.NewInt(0xffff))
			return new(big.Int).Sub(max, d.Add(d, big.NewInt(1)))
		}
		return v.Mod(v, max)
	}
	x.NT()
	x.Label("%s p%d", c.Op, c.Set)
	inRange := func(z *common.Fp, what string) (*big.Int, error) {
		v := fromW(z[:words])
		if v.Cmp(p2) >= 0 {
			return nil, Errf("p%d %s (cpu %s): result %x is not below 2p; case %+v", c.Set, what, c.CPU, v, c)
		}
		return v, nil
	}
	cong := func(z *common.Fp, want *big.Int) error {
		v, err := inRange(z, c.Op)
		if err != nil {
			return err
		}
		d := new(big.Int).Sub(v, want)
		if d.Mod(d, p).Sign() != 0 {
			return Errf("p%d %s (cpu %s, aliasing %s): got %x, want %x mod p", c.Set, c.Op, c.CPU, c.Alias, v, new(big.Int).Mod(want, p))
		}
		return nil
	}
	exact := func(got []uint64, want *big.Int) error {
		if v := fromW(got); v.Cmp(want) != 0 {
			return Errf("p%d %s (cpu %s, aliasing %s): got %x, want %x", c.Set, c.Op, c.CPU, c.Alias, v, want)
		}
		return nil
	}
	a, b := el(0), el(1)
	solved := false
	if c.Solve.Kind != "" {
		sv := newSolver(c.Solve.Seed, words, p)
		var u, v *big.Int
		switch c.Op {
		case "mul", "mul2", "sqr2":
			u, v, solved = sv.mul(c.Solve.Kind, p2)
		case "add", "sub", "add2", "sub2":
			u, v, solved = sv.add(c.Solve.Kind, p2)
		case "rdc":
			if v, ok := sv.rdc(c.Solve.Kind); ok {
				solved = true
				wide = func(int, *big.Int) *big.Int { return v }
				c.C = 0
			}
		}
		if u != nil {
			a, b = u, v
			x.Label("solved %s", c.Solve.Kind)
		}
	}
	if c.Alias == "xy" || c.Alias == "all" {
		b = a
	}
	fa, fb := toFp(a), toFp(b)
	var z common.Fp
	pz, px, py := &z, &fa, &fb
	switch c.Alias {
	case "zx":
		pz = px
	case "zy":
		pz = py
	case "xy":
		py = px
	case "all":
		py, pz = px, px
	}
	switch c.Op {
	case "add":
		o.add(pz, px, py)
		return cong(pz, new(big.Int).Add(a, b))
	case "sub":
		o.sub(pz, px, py)
		return cong(pz, new(big.Int).Sub(a, b))
	case "mul":
		var w common.FpX2
		for i := range w {
			w[i] = ^uint64(0)
		}
		o.mul(&w, px, py)
		return exact(w[:2*words], new(big.Int).Mul(a, b))
	case "rdc":
		v := wide(2, new(big.Int).Mul(p, R))
		if c.C == 1 { // a sum of products as in the extension field
			m, n := el(2), el(3)
			v = new(big.Int).Mul(a, m)
			v.Add(v, new(big.Int).Mul(b, n))
		}
		w := toFpX2(v)
		for i := range z {
			z[i] = ^uint64(0)
		}
		o.rdc(&z, &w)
		return cong(&z, new(big.Int).Mul(v, ri))
	case "mod":
		o.mod(px)
		return exact(px[:words], new(big.Int).Mod(a, p))
	case "adl", "sul":
		// operands are (sums of) products of elements
		max := new(big.Int).Mul(p2, p2)
		v, u := wide(2, max), wide(3, max)
		w1, w2 := toFpX2(v), toFpX2(u)
		var w common.FpX2
		pw := &w
		if c.Alias == "zx" || c.Alias == "all" {
			pw = &w1
		} else if c.Alias == "zy" {
			pw = &w2
		}
		if c.Op == "adl" {
			o.adl(pw, &w1, &w2)
			return exact(pw[:2*words], v.Add(v, u))
		}
		o.sul(pw, &w1, &w2)
		got := fromW(pw[:2*words])
		if got.Cmp(new(big.Int).Mul(p, R)) >= 0 {
			return Errf("p%d sul (cpu %s): result %x can't be reduced", c.Set, c.CPU, got)
		}
		d := new(big.Int).Sub(v, u)
		if d.Sub(d, got).Mod(d, p).Sign() != 0 {
			return Errf("p%d sul (cpu %s): %x - %x gives %x", c.Set, c.CPU, v, u, got)
		}
		return nil
	case "cswap":
		o.cswap(&fa, &fb, c.C)
		u, v := a, b
		if c.C == 1 {
			u, v = b, a
		}
		if err := exact(fa[:words], u); err != nil {
			return err
		}
		return exact(fb[:words], v)
	}
	// extension field
	xa, xb := el(0), el(1)
	ya, yb := el(2), el(3)
	if solved { // operands of one of the multiplications in the extension field
		sub := func(u, v *big.Int) *big.Int { d := new(big.Int).Sub(u, v); return d.Mod(d, p2) }
		add := func(u, v *big.Int) *big.Int { d := new(big.Int).Add(u, v); return d.Mod(d, p2) }
		switch k := c.C + uint8(c.Near[0])*2; {
		case c.Op == "sqr2": // (xa+xb)(xa-xb), 2*xa*xb
			if xa, xb = a, sub(a, b); k&1 == 1 && a.Bit(0) == 0 {
				xa, xb = new(big.Int).Rsh(a, 1), b
			}
		case c.Op != "mul2":
			if xa, ya = a, b; k&1 == 1 {
				xb, yb = a, b
			}
		case k%3 == 0: // xa*ya
			xa, ya = a, b
		case k%3 == 1: // xb*yb
			xb, yb = a, b
		default: // (xb-xa)*(ya-yb)
			xb, ya = add(xa, a), add(yb, b)
		}
	}
	if c.Alias == "xy" || c.Alias == "all" {
		ya, yb = xa, xb
	}
	X, Y := common.Fp2{A: toFp(xa), B: toFp(xb)}, common.Fp2{A: toFp(ya), B: toFp(yb)}
	var Z common.Fp2
	qz, qx, qy := &Z, &X, &Y
	switch c.Alias {
	case "zx":
		qz = qx
	case "zy":
		qz = qy
	case "xy":
		qy = qx
	case "all":
		qy, qz = qx, qx
	}
	mul := func(u, v *big.Int) *big.Int { return new(big.Int).Mul(u, v) }
	both := func(wa, wb *big.Int) error {
		if err := cong(&qz.A, wa); err != nil {
			return err
		}
		return cong(&qz.B, wb)
	}
	switch c.Op {
	case "add2":
		o.add2(qz, qx, qy)
		return both(new(big.Int).Add(xa, ya), new(big.Int).Add(xb, yb))
	case "sub2":
		o.sub2(qz, qx, qy)
		return both(new(big.Int).Sub(xa, ya), new(big.Int).Sub(xb, yb))
	case "mul2":
		o.mul2(qz, qx, qy)
		wa := new(big.Int).Sub(mul(xa, ya), mul(xb, yb))
		wb := new(big.Int).Add(mul(xa, yb), mul(xb, ya))
		return both(wa.Mul(wa, ri), wb.Mul(wb, ri))
	case "sqr2":
		if c.Alias == "zy" {
			qz = &Z
		}
		o.sqr2(qz, qx)
		wa := new(big.Int).Sub(mul(xa, xa), mul(xb, xb))
		wb := mul(xa, xb)
		wb.Lsh(wb, 1)
		return both(wa.Mul(wa, ri), wb.Mul(wb, ri))
	case "inv2":
		if c.Alias == "zy" {
			qz = &Z
		}
		o.inv2(qz, qx)
		// z = R^2/x; 0 for 0
		n := new(big.Int).Add(mul(xa, xa), mul(xb, xb))
		n.Mod(n, p)
		if n.Sign() == 0 {
			return nil
		}
		n.ModInverse(n, p)
		n.Mul(n, R).Mul(n, R).Mod(n, p)
		return both(mul(xa, n), new(big.Int).Neg(mul(xb, n)))
	case "to", "from":
		// any value that fits into the encoding
		if c.Op == "to" {
			xa, xb = sr.LE(c.X[0].Bytes()[:s.Len]), sr.LE(c.X[1].Bytes()[:s.Len])
			*qx = common.Fp2{A: toFp(xa), B: toFp(xb)}
		}
		if c.Alias == "zy" {
			qz = &Z
		}
		f := R
		if c.Op == "to" {
			o.to(qz, qx)
		} else {
			o.from(qz, qx)
			f = ri
		}
		if err := both(mul(xa, f), mul(xb, f)); err != nil {
			return err
		}
		if c.Op == "from" && (fromW(qz.A[:words]).Cmp(p) >= 0 || fromW(qz.B[:words]).Cmp(p) >= 0) {
			return Errf("p%d: value converted from Montgomery form isn't reduced", c.Set)
		}
		return nil
	}
	return HarnessError{"op " + c.Op}
}

// sidhSelf refuses to judge with a broken reference.
func sidhSelf(side string) {
	for _, s := range sr.Sets {
		if err := s.SelfCheck(); err != nil {
			panic(HarnessError{fmt.Sprintf("p%s: %v", side, err)})
		}
	}
}

func eachKeyKind(emit func(set, side int, sike bool)) {
	for _, set := range []int{434, 503, 751} {
		emit(set, 0, false)
		emit(set, 1, false)
		emit(set, 1, true)
	}
}

func init() {
	as := []string{"SIDH as in the SIKE specification; the reference uses affine isogeny formulas over an independent field implementation and was checked against the NIST known-answer tests"}
	cpuNote := "; CPU paths (MULX/ADX, MULX, plain) selected per case"
	Register(&Prop{ID: "C15", Suites: []*Suite{
		Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "one object used more often than a small counter can tell; every result compared"}, endurC15, runC15h),
		Gen(Suite{Name: "agreement", Quick: 9600, Thorough: 60000, Rule: "rounds of key exchange in three fields with random or edge private keys, fresh or reused objects, with or without encoding; both secrets compared" + cpuNote}, genC15(3), runC15),
		Gen(Suite{Name: "history", Quick: 2400, Thorough: 30000, Rule: "key objects used repeatedly with changing contents, refused calls in between; compared with a peer using fresh objects; non-trivial with at least two derivations"}, genC15h, runC15h),
		Gen(Suite{Name: "agreement-noasm", Config: "noasm", Quick: 800, Thorough: 4000, Rule: "as agreement, pure Go build"}, genC15(1), runC15),
		Gen(Suite{Name: "agreement-386", Config: "386", Quick: 160, Thorough: 800, Rule: "as agreement, 32-bit build"}, genC15(1), runC15),
	}})
	Register(&Prop{ID: "C16", Assumptions: as, Suites: []*Suite{
		Gen(Suite{Name: "spec", Quick: 3200, Thorough: 40000, Rule: "every case: public key and secret compared with the reference, for peers' keys on other bases, isomorphic curves or not reduced encodings" + cpuNote}, genC16, runC16),
		Gen(Suite{Name: "spec-noasm", Config: "noasm", Quick: 480, Thorough: 4000, Rule: "as spec, pure Go build"}, genC16, runC16),
	}})
	Register(&Prop{ID: "C17", Suites: []*Suite{
		Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "one object used more often than a small counter can tell; every result compared"}, endurSidh("import", 66000), runEndurSidh),
		Gen(Suite{Name: "objects", Quick: 96000, Thorough: 960000, Rule: "history of imports, refused imports, exports and generations over reused keys of several kinds, compared with a model after every step; at least one accepted import"}, genC17(false), runC17),
		Enum(Suite{Name: "wrong-lengths", Rule: "every length from 0 to twice the right one and more, for every kind of key, with content that extends or truncates a valid encoding, random or zero"}, func(tier string, emit func(c17l)) {
			eachKeyKind(func(set, side int, sike bool) {
				for f := 0; f < 3; f++ {
					emit(c17l{set, side, sike, true, f})
					emit(c17l{set, side, sike, false, f})
				}
			})
		}, runC17l),
		Gen(Suite{Name: "objects-gen", Quick: 1600, Thorough: 8000, Rule: "as objects, with generated public keys"}, genC17(true), runC17),
		Gen(Suite{Name: "objects-noasm", Config: "noasm", Quick: 16000, Thorough: 160000, Rule: "as objects, pure Go build"}, genC17(false), runC17),
		Gen(Suite{Name: "objects-386", Config: "386", Quick: 8000, Thorough: 80000, Rule: "as objects, 32-bit build"}, genC17(false), runC17),
	}})
	Register(&Prop{ID: "C18", Assumptions: []string{"uniformity is only tested bit by bit, with bounds 10 standard deviations wide"}, Suites: []*Suite{
		Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "one object used more often than a small counter can tell; every result compared"}, endurSidh("gen", 66000), runEndurSidh),
		Gen(Suite{Name: "keys", Quick: 600000, Thorough: 6000000, Rule: "a stream with unusual start, short reads or a failure"}, genC18, runC18),
		Enum(Suite{Name: "bytes", Rule: "each case: every value of one byte of the randomness, among zeros, ones and random bytes"}, enumC18d, runC18d),
		Enum(Suite{Name: "entropy", Rule: "each case: every single bit of the randomness is flipped"}, func(tier string, emit func(c18b)) {
			n := 4
			if tier == "thorough" {
				n = 100
			}
			for i := 0; i < n; i++ {
				eachKeyKind(func(set, side int, sike bool) { emit(c18b{set, side, sike, seedBase() + uint64(i)}) })
			}
		}, runC18b),
		Enum(Suite{Name: "bits", Rule: "each case: frequency of every bit over thousands of keys"}, func(tier string, emit func(c18c)) {
			n := 1
			if tier == "thorough" {
				n = 20
			}
			for i := 0; i < n; i++ {
				eachKeyKind(func(set, side int, sike bool) { emit(c18c{set, side, sike, seedBase() + uint64(i), 4000}) })
			}
		}, runC18c),
		Enum(Suite{Name: "failures", Rule: "RNG failing after every number of bytes, with every kind of error and read size"}, func(tier string, emit func(c18)) {
			eachKeyKind(func(set, side int, sike bool) {
				s := sr.ByName(set)
				n := s.Bytes[side]
				if sike {
					n += s.Msg
				}
				for f := 0; f <= n; f++ {
					for k := 0; k < 12; k++ {
						c := c18{Set: set, Side: side, Sike: sike, R: GoodRNG(uint64(f)), Fail: f, Dirty: Blob{Kind: "ff", Len: 100}, Funcs: k%2 == 1}
						c.R.ErrKind = []string{"", "eof", "ueof"}[k%3]
						c.R.FailWithData = k/3%2 == 1
						if k >= 6 {
							c.R.Chunks = []int{1 + f%3}
						}
						emit(c)
					}
				}
			})
		}, runC18),
	}})
	Register(&Prop{ID: "C20", Assumptions: []string{"math/big"}, Suites: []*Suite{
		Gen(Suite{Name: "fp", Hook: "hk_sidhfp", Quick: 720000, Thorough: 7200000, Rule: "every case: one operation of the base or extension field with edge-biased operands below 2p and aliasing, compared with math/big" + cpuNote}, genC20, runC20),
		Gen(Suite{Name: "fp-noasm", Hook: "hk_sidhfp", Config: "noasm", Quick: 360000, Thorough: 3600000, Rule: "as fp, pure Go build"}, genC20, runC20),
		Gen(Suite{Name: "fp-386", Hook: "hk_sidhfp", Config: "386", Quick: 180000, Thorough: 1800000, Rule: "as fp, 32-bit build"}, genC20, runC20),
		Gen(Suite{Name: "through-api", Quick: 480, Thorough: 4000, Rule: "public keys and secrets compared with a reference over an independent field implementation"}, genC16, runC16),
	}})
}
