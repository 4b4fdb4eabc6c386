package checks

import (
	"bytes"
	"io"
	"math"
	"math/big"

	"github.com/henrydcase/nobs/dh/csidh"
	"pgregory.net/rapid"
	. "verif/core"
	cr "verif/ref/csidhref"
	"verif/ref/fpref"
	"verif/ref/hwcpu"
)

// csidhSetCPU is set by a hook.
var csidhSetCPU func(bmi2, adx bool)

// withCPU runs f with the code paths of a given kind of CPU.
func csidhWithCPU(kind string, f func() error) error {
	h := hwcpu.Flags()
	if csidhSetCPU == nil || !h.Known {
		return f()
	}
	defer csidhSetCPU(h.BMI2, h.BMI2 && h.ADX)
	switch kind {
	case "bmi2":
		csidhSetCPU(h.BMI2, false)
	case "plain":
		csidhSetCPU(false, false)
	default:
		csidhSetCPU(h.BMI2, h.BMI2 && h.ADX)
	}
	return f()
}

func drawCPU(t *rapid.T) string {
	return rapid.SampledFrom([]string{"adx", "adx", "bmi2", "plain"}).Draw(t, "cpu")
}

// skSpec describes a private key.
type skSpec struct {
	Kind string `json:"kind"`
	Seed uint64 `json:"seed"`
}

// exps expands to 74 exponents.
func (s skSpec) exps() []int {
	e := make([]int, 74)
	p := NewPRNG(s.Seed)
	switch s.Kind {
	case "zero":
	case "single":
		v := []int{1, -1, 2, -2, 5, -5, 3, 7, -8}[p.Intn(9)]
		e[p.Intn(74)] = v
	case "unit": // the Seed-th generator or its inverse
		e[int(s.Seed/2)%74] = 1 - 2*int(s.Seed%2)
	case "sparse":
		for i := p.Intn(6) + 1; i > 0; i-- {
			e[p.Intn(74)] = p.Intn(11) - 5
		}
	case "allmax", "allmin", "alt", "ones":
		for i := range e {
			switch s.Kind {
			case "allmax":
				e[i] = 5
			case "allmin":
				e[i] = -5
			case "ones":
				e[i] = 1 - 2*p.Intn(2)
			default:
				e[i] = 5 - 10*((i+int(s.Seed))%2)
			}
		}
	case "small":
		for i := range e {
			e[i] = p.Intn(3) - 1
		}
	case "half":
		for i := range e {
			if (i < 37) == (s.Seed%2 == 0) {
				e[i] = p.Intn(5) - 2
			}
		}
	case "nibble":
		for i := range e {
			e[i] = p.Intn(16) - 8
		}
	default:
		for i := range e {
			e[i] = p.Intn(11) - 5
		}
	}
	return e
}

func packExps(e []int) []byte {
	b := make([]byte, 37)
	for i, v := range e {
		b[i/2] |= byte(v&15) << uint(4-4*(i%2))
	}
	return b
}

func unpackExps(b []byte) []int { return cr.Exps(b) }

func importSk(e []int) *csidh.PrivateKey {
	k := new(csidh.PrivateKey)
	if !k.Import(packExps(e)) {
		panic(HarnessError{"private key import"})
	}
	return k
}

var skKinds = []string{"rnd", "rnd", "rnd", "sparse", "sparse", "single", "small", "half", "allmax", "allmin", "alt", "ones", "zero", "nibble"}
var skCheap = []string{"sparse", "sparse", "single", "small", "ones", "zero", "half"}

func drawSk(t *rapid.T, l string, kinds []string) skSpec {
	return skSpec{rapid.SampledFrom(kinds).Draw(t, l+".kind"), rapid.Uint64().Draw(t, l+".seed")}
}

// crng is a randomness source that first yields chosen abscissas.
type crng struct {
	R RNG `json:"r"`
	// each entry picks a point: "zero", "one", "minus1", "big" (not below p),
	// "low" (a point of low order on the curve at hand), "raw"
	Pts []crPt `json:"pts"`
}
type crPt struct {
	Kind string `json:"k"`
	Idx  []int  `json:"idx,omitempty"`
	Seed uint64 `json:"s,omitempty"`
	Rep  int    `json:"rep,omitempty"` // comes this many times more
}

func drawCrng(t *rapid.T, l string) crng {
	c := crng{R: GoodRNG(rapid.Uint64().Draw(t, l+".seed"))}
	if rapid.IntRange(0, 2).Draw(t, l+".plain") > 0 {
		c.R.Chunks = DrawChunks(t, l+".chunks")
	}
	c.Pts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) crPt {
		p := crPt{Kind: rapid.SampledFrom([]string{"zero", "one", "minus1", "big", "pminus1", "low", "low", "low", "missing", "missing"}).Draw(t, "pk")}
		if p.Kind == "low" || p.Kind == "missing" {
			p.Idx = rapid.SliceOfN(rapid.IntRange(0, 73), 0, 4).Draw(t, "idx")
			p.Seed = rapid.Uint64().Draw(t, "s")
		} else if p.Kind == "big" {
			p.Seed = rapid.Uint64().Draw(t, "s")
		}
		if rapid.IntRange(0, 15).Draw(t, "rep.m") == 0 {
			p.Rep = rapid.SampledFrom([]int{1, 2, 3, 4, 7, 8, 9, 15, 16, 31}).Draw(t, "rep")
			if p.Kind != "big" {
				p.Rep %= 10
			}
		}
		return p
	}), 0, 4).Draw(t, l+".pts")
	return c
}

func leWords(v *big.Int) []byte {
	b := v.FillBytes(make([]byte, 64))
	for i, j := 0, 63; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

// reader builds the source; A is the curve the points live on.
func (c crng) reader(A cr.El) *Reader {
	r := c.R
	F := cr.F
	for _, p := range c.Pts {
		var v *big.Int
		switch p.Kind {
		case "zero":
			v = new(big.Int)
		case "one":
			v = F.RawOut(&F.One)
		case "minus1":
			var m cr.El
			F.Neg(&m, &F.One)
			v = F.RawOut(&m)
		case "pminus1":
			v = new(big.Int).Sub(cr.P, big.NewInt(1))
		case "big":
			v = new(big.Int).Add(cr.P, new(big.Int).SetUint64(p.Seed))
			if p.Seed%3 == 0 {
				v = new(big.Int).Set(cr.P)
			}
		default:
			// a point whose order is the product of (low) or excludes
			// (missing) the chosen primes
			k := big.NewInt(1)
			for _, i := range p.Idx {
				l := big.NewInt(cr.Primes[i])
				if new(big.Int).Mod(k, l).Sign() != 0 {
					k.Mul(k, l)
				}
			}
			if p.Kind == "low" {
				k.Div(cr.Pp1, k)
			}
			x := F.In(new(big.Int).SetUint64(p.Seed | 1))
			F.Mul(&x, &x, &x)
			F.Mul(&x, &x, &x)
			pt := cr.Pt{X: x, Z: F.One}
			pt = cr.Mul(&pt, &A, k)
			var zi cr.El
			F.Inv(&zi, &pt.Z)
			F.Mul(&zi, &zi, &pt.X)
			v = F.RawOut(&zi)
		}
		for n := 0; n <= p.Rep; n++ {
			r.Prefix = append(r.Prefix, RawBlob(leWords(v)))
		}
	}
	return r.New()
}

func pubBytes(p *csidh.PublicKey) []byte {
	b := make([]byte, 64)
	if !p.Export(b) {
		panic(HarnessError{"public key export"})
	}
	return b
}

func pubFrom(b []byte) *csidh.PublicKey {
	p := new(csidh.PublicKey)
	if !p.Import(b) {
		panic(HarnessError{"public key import"})
	}
	return p
}

// --- C09 agreement

type c09 struct {
	CPU   string `json:"cpu"`
	Keys  []skSpec
	Gen   []bool // private key made by GeneratePrivateKey
	Rngs  []crng
	Wire  bool `json:"wire"` // keys travel through Export/Import
	Dirty bool `json:"dirty"`
}

func genC09(kinds []string) func(t *rapid.T) c09 {
	return func(t *rapid.T) c09 {
		c := c09{CPU: drawCPU(t), Wire: rapid.Bool().Draw(t, "wire"), Dirty: rapid.Bool().Draw(t, "dirty")}
		n := 2
		if rapid.IntRange(0, 3).Draw(t, "three") == 0 {
			n = 3
		}
		for i := 0; i < n; i++ {
			c.Keys = append(c.Keys, drawSk(t, "sk", kinds))
			c.Gen = append(c.Gen, rapid.IntRange(0, 3).Draw(t, "gen") == 0)
			c.Rngs = append(c.Rngs, drawCrng(t, "rng"))
		}
		return c
	}
}

func runC09(c c09, x *Ctx) error {
	return csidhWithCPU(c.CPU, func() error { return runC09in(c, x) })
}

func runC09in(c c09, x *Ctx) error {
	n := len(c.Keys)
	sk := make([]*csidh.PrivateKey, n)
	pk := make([]*csidh.PublicKey, n)
	var zero cr.El
	x.Label("%d parties, %s", n, c.CPU)
	for i := range sk {
		if c.Gen[i] {
			sk[i] = new(csidh.PrivateKey)
			if err := csidh.GeneratePrivateKey(sk[i], GoodRNG(c.Keys[i].Seed).New()); err != nil {
				return Errf("GeneratePrivateKey: %v", err)
			}
		} else {
			sk[i] = importSk(c.Keys[i].exps())
		}
		pk[i] = new(csidh.PublicKey)
		if c.Dirty {
			pk[i].Import(bytes.Repeat([]byte{0x5a}, 64))
		}
		csidh.GeneratePublicKey(pk[i], sk[i], c.Rngs[i].reader(zero))
	}
	if c.Wire {
		for i := range pk {
			pk[i] = pubFrom(pubBytes(pk[i]))
			b := make([]byte, 37)
			if !sk[i].Export(b) {
				return Errf("private key export refused")
			}
			sk[i] = new(csidh.PrivateKey)
			if !sk[i].Import(b) {
				return Errf("private key import refused")
			}
		}
	}
	// every order of applying all keys gives the same secret
	perms := [][]int{{0, 1}, {1, 0}}
	if n == 3 {
		perms = [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}
	}
	var first []byte
	for k, p := range perms {
		cur := pk[p[0]]
		var out [64]byte
		for _, j := range p[1:] {
			for i := range out {
				out[i] = byte(k)
			}
			b := pubBytes(cur)
			A := cr.F.Raw(cr.Value(b))
			if !csidh.DeriveSecret(&out, cur, sk[j], c.Rngs[j].reader(A)) {
				return Errf("party %d: honest public key %s refused", j, Short(b))
			}
			if !bytes.Equal(pubBytes(cur), b) {
				return Errf("DeriveSecret changed the public key")
			}
			cur = pubFrom(out[:])
		}
		if first == nil {
			first = append(first, out[:]...)
		} else if !bytes.Equal(first, out[:]) {
			return Errf("parties disagree: order %v gives %s, order %v gives %s", perms[0], Short(first), p, Short(out[:]))
		}
	}
	x.NT()
	return nil
}

// c09h: objects are used again and again with other contents.
type c09h struct {
	CPU string `json:"cpu"`
	N   int    `json:"n"`
	Ops []c09hop
}
type c09hop struct {
	Op   string `json:"op"` // gen, import, public, wire, derive
	I, J int
	Sk   skSpec
	Rng  crng
}

func genC09h(t *rapid.T) c09h {
	c := c09h{CPU: drawCPU(t), N: rapid.IntRange(2, 3).Draw(t, "n")}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c09hop {
		return c09hop{Op: rapid.SampledFrom([]string{"import", "import", "gen", "public", "wire", "bad", "derive", "derive", "derive", "derive"}).Draw(t, "op"),
			I: rapid.IntRange(0, 2).Draw(t, "i"), J: rapid.IntRange(0, 2).Draw(t, "j"), Sk: drawSk(t, "sk", skCheap), Rng: drawCrng(t, "rng")}
	}), 3, 14).Draw(t, "ops")
	return c
}

// runC09h keeps one private-key and one public-key object per slot. Whatever
// was done with the objects, a derivation gives what the peer with fresh objects
// made of the same encodings derives.
func runC09h(c c09h, x *Ctx) error {
	return csidhWithCPU(c.CPU, func() error {
		var zero cr.El
		sk := make([]csidh.PrivateKey, c.N)
		pk := make([]csidh.PublicKey, c.N) // slot i holds a public key of secret owner[i]
		var out [64]byte
		enc := make([][]byte, c.N) // private key in slot
		pub := make([][]byte, c.N) // public key in slot
		own := make([][]byte, c.N) // private key belonging to it
		pubOf := func(e []byte) []byte {
			var k csidh.PrivateKey
			var p csidh.PublicKey
			k.Import(e)
			csidh.GeneratePublicKey(&p, &k, GoodRNG(7).New())
			return pubBytes(&p)
		}
		for i := range sk {
			enc[i] = packExps(skSpec{"single", uint64(i)}.exps())
			sk[i].Import(enc[i])
			csidh.GeneratePublicKey(&pk[i], &sk[i], GoodRNG(uint64(i)).New())
			pub[i], own[i] = pubBytes(&pk[i]), enc[i]
		}
		n := 0
		for oi, o := range c.Ops {
			i, j := o.I%c.N, o.J%c.N
			switch o.Op {
			case "import":
				enc[i] = packExps(o.Sk.exps())
				if !sk[i].Import(enc[i]) {
					return Errf("op %d: private key import refused", oi)
				}
			case "gen":
				if err := csidh.GeneratePrivateKey(&sk[i], GoodRNG(o.Sk.Seed).New()); err != nil {
					return Errf("op %d: GeneratePrivateKey: %v", oi, err)
				}
				enc[i] = make([]byte, 37)
				sk[i].Export(enc[i])
			case "public":
				csidh.GeneratePublicKey(&pk[j], &sk[i], o.Rng.reader(zero))
				pub[j], own[j] = pubBytes(&pk[j]), enc[i]
				if w := pubOf(enc[i]); !bytes.Equal(w, pub[j]) {
					return Errf("op %d: public key of reused objects is %s, of fresh ones %s", oi, Short(pub[j]), Short(w))
				}
			case "wire":
				own[j] = packExps(o.Sk.exps())
				pub[j] = pubOf(own[j])
				if !pk[j].Import(pub[j]) {
					return Errf("op %d: public key import refused", oi)
				}
			case "bad": // a refused derivation in between
				var b csidh.PublicKey
				b.Import(leWords(new(big.Int).Add(cr.P, big.NewInt(int64(o.Sk.Seed%1000)))))
				if csidh.DeriveSecret(&out, &b, &sk[i], o.Rng.reader(zero)) {
					return Errf("op %d: unreduced public key accepted", oi)
				}
			case "derive":
				for k := range out {
					out[k] = byte(oi)
				}
				if !csidh.DeriveSecret(&out, &pk[j], &sk[i], o.Rng.reader(cr.F.Raw(cr.Value(pub[j])))) {
					return Errf("op %d: honest public key refused", oi)
				}
				var peer csidh.PrivateKey
				var mine csidh.PublicKey
				var want [64]byte
				peer.Import(own[j])
				mine.Import(pubOf(enc[i]))
				if !csidh.DeriveSecret(&want, &mine, &peer, GoodRNG(9).New()) {
					return Errf("op %d: peer refuses honest public key", oi)
				}
				if out != want {
					return Errf("op %d: parties disagree after reuse of objects: %s, the peer derives %s", oi, Short(out[:]), Short(want[:]))
				}
				n++
			}
			for k := range pk {
				if !bytes.Equal(pubBytes(&pk[k]), pub[k]) {
					return Errf("op %d (%s): public key in slot %d changed", oi, o.Op, k)
				}
			}
		}
		x.Label("%d derivations", n)
		if n > 1 {
			x.NT()
		}
		return nil
	})
}

// --- C10 group action

type c10 struct {
	CPU  string `json:"cpu"`
	Mode string `json:"mode"`
	Base skSpec
	Sk   skSpec
	Sk2  skSpec
	R    []crng
}

func genC10(modes []string, kinds []string) func(t *rapid.T) c10 {
	return func(t *rapid.T) c10 {
		c := c10{CPU: drawCPU(t), Mode: rapid.SampledFrom(modes).Draw(t, "mode"), Base: drawSk(t, "base", skCheap), Sk: drawSk(t, "sk", kinds)}
		if c.Mode == "add" {
			c.Sk2 = drawSk(t, "sk2", []string{"sparse", "small", "single"})
		}
		for i := 0; i < 2; i++ {
			c.R = append(c.R, drawCrng(t, "rng"))
		}
		return c
	}
}

func act(pub []byte, sk *csidh.PrivateKey, r crng) ([]byte, error) {
	var out [64]byte
	p := pubFrom(pub)
	if !csidh.DeriveSecret(&out, p, sk, r.reader(cr.F.Raw(cr.Value(pub)))) {
		return nil, Errf("supersingular curve %s refused", Short(pub))
	}
	return out[:], nil
}

func neg(e []int) []int {
	r := make([]int, len(e))
	for i, v := range e {
		r[i] = -v
	}
	return r
}

func clampExps(e []int, lo, hi int) []int {
	for i := range e {
		if e[i] < lo {
			e[i] = lo
		}
		if e[i] > hi {
			e[i] = hi
		}
	}
	return e
}

func runC10(c c10, x *Ctx) error {
	return csidhWithCPU(c.CPU, func() error { return runC10in(c, x) })
}

func runC10in(c c10, x *Ctx) error {
	e := c.Sk.exps()
	x.Label("%s %s", c.Mode, c.Sk.Kind)
	var zero cr.El
	nz := false
	for _, v := range e {
		nz = nz || v != 0
	}
	if nz {
		x.NT()
	}
	gen := func(e []int, r crng) []byte {
		pk := new(csidh.PublicKey)
		csidh.GeneratePublicKey(pk, importSk(e), r.reader(zero))
		return pubBytes(pk)
	}
	switch c.Mode {
	case "ref0":
		got := gen(e, c.R[0])
		A := cr.Action(zero, e, c.Sk.Seed)
		if w := cr.Encode(&A); !bytes.Equal(got, w) {
			return Errf("public key of exponents %v: got %s, the class group action gives %s", e, Short(got), Short(w))
		}
	case "ref":
		B := cr.Action(zero, c.Base.exps(), c.Base.Seed)
		got, err := act(cr.Encode(&B), importSk(e), c.R[0])
		if err != nil {
			return err
		}
		A := cr.Action(B, e, c.Sk.Seed)
		if w := cr.Encode(&A); !bytes.Equal(got, w) {
			return Errf("exponents %v on curve %s: got %s, the class group action gives %s", e, Short(cr.Encode(&B)), Short(got), Short(w))
		}
	case "inverse":
		e = clampExps(e, -7, 7)
		p := gen(e, c.R[0])
		back, err := act(p, importSk(neg(e)), c.R[1])
		if err != nil {
			return err
		}
		if !bytes.Equal(back, make([]byte, 64)) {
			return Errf("e followed by -e doesn't return to the starting curve: e=%v gives %s", e, Short(back))
		}
	case "twist":
		e = clampExps(e, -7, 7)
		p := gen(e, c.R[0])
		q := gen(neg(e), c.R[1])
		s := new(big.Int).Add(cr.Value(p), cr.Value(q))
		if s.Sign() != 0 && s.Cmp(cr.P) != 0 {
			return Errf("curve of -e is not the twist of the curve of e=%v", e)
		}
	case "add":
		a, b := e, c.Sk2.exps()
		clampExps(a, -5, 5)
		clampExps(b, -2, 2)
		s := make([]int, 74)
		for i := range s {
			s[i] = a[i] + b[i]
		}
		p := gen(s, c.R[0])
		q, err := act(gen(a, c.R[1]), importSk(b), c.R[0])
		if err != nil {
			return err
		}
		if !bytes.Equal(p, q) {
			return Errf("action of %v isn't the action of %v after %v", s, b, a)
		}
	case "rng":
		if p, q := gen(e, c.R[0]), gen(e, c.R[1]); !bytes.Equal(p, q) {
			return Errf("public key of %v depends on the randomness: %s and %s", e, Short(p), Short(q))
		}
	}
	return nil
}

// --- C11 validation

type c11 struct {
	CPU  string `json:"cpu"`
	Kind string `json:"kind"`
	Seed uint64 `json:"seed"`
	Sk   skSpec
	Base skSpec
	R    crng
	Low  bool `json:"low"` // feed small-order points of the curve itself
	// keys the object held, and was asked about, before this one
	Prev []c11prev `json:"prev,omitempty"`
}

type c11prev struct {
	Kind string `json:"kind"`
	Seed uint64 `json:"seed"`
	Op   int    `json:"op"` // validate, derive, import only, generate
}

var badCurves = []string{"random", "random", "bitflip", "noncanonical", "noncanonical", "two", "minustwo", "order3", "order3", "order4", "plusone", "p", "near2^512", "byteswap", "integer"}
var goodCurves = []string{"valid", "valid", "twist", "zero", "six", "j1728", "j0"}

func genC11(t *rapid.T) c11 {
	c := c11{CPU: drawCPU(t), Seed: rapid.Uint64().Draw(t, "seed"), Sk: drawSk(t, "sk", []string{"single", "unit", "sparse", "zero"}), Base: drawSk(t, "base", []string{"sparse", "single", "small", "unit"})}
	if rapid.IntRange(0, 2).Draw(t, "good") == 0 {
		c.Kind = rapid.SampledFrom(goodCurves).Draw(t, "kind")
	} else {
		c.Kind = rapid.SampledFrom(badCurves).Draw(t, "kind")
	}
	c.R = drawCrng(t, "rng")
	c.Low = rapid.Bool().Draw(t, "low")
	if rapid.IntRange(0, 3).Draw(t, "reuse") == 0 {
		c.Prev = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c11prev {
			return c11prev{rapid.SampledFrom([]string{"zero", "zero", "valid", "six", "random", "two", "order4", "near2^512", "noncanonical"}).Draw(t, "pk"), rapid.Uint64().Draw(t, "ps"), rapid.IntRange(0, 3).Draw(t, "po")}
		}), 1, 3).Draw(t, "prev")
	}
	return c
}

func (c c11) key() []byte {
	F := cr.F
	p := NewPRNG(c.Seed)
	rnd := func() cr.El {
		b := make([]byte, 64)
		p.Fill(b)
		return F.In(new(big.Int).SetBytes(b))
	}
	var z cr.El
	base := func() cr.El { return cr.Action(z, c.Base.exps(), c.Seed) }
	sqrt := func(v cr.El) (cr.El, bool) {
		var r, s cr.El
		e := new(big.Int).Rsh(cr.Pp1, 2)
		F.Exp(&r, &v, e)
		F.Sqr(&s, &r)
		return r, s == v
	}
	var A cr.El
	switch c.Kind {
	case "valid":
		A = base()
	case "twist":
		A = base()
		F.Neg(&A, &A)
	case "zero":
	case "six":
		A = F.Int(6)
	case "j1728": // A^2 = 9/2
		h := F.Int(2)
		F.Inv(&h, &h)
		n := F.Int(9)
		F.Mul(&h, &h, &n)
		if r, ok := sqrt(h); ok {
			A = r
		}
	case "j0":
		if r, ok := sqrt(F.Int(3)); ok {
			A = r
		}
	case "random":
		A = rnd()
	case "bitflip":
		A = base()
		b := cr.Encode(&A)
		i := p.Intn(512)
		b[i/8] ^= 1 << uint(i%8)
		return b
	case "byteswap":
		A = base()
		b := cr.Encode(&A)
		i := p.Intn(63)
		b[i], b[i+1] = b[i+1], b[i]
		return b
	case "integer": // not in Montgomery form
		A = base()
		return leWords(F.Out(&A))
	case "noncanonical":
		A = base()
		if p.Intn(2) == 0 {
			A = z
		}
		v := new(big.Int).Add(F.RawOut(&A), cr.P)
		if v.BitLen() > 512 {
			v.Sub(v, cr.P)
		}
		return leWords(v)
	case "two":
		A = F.Int(2)
	case "minustwo":
		A = F.Int(-2)
	case "p":
		return leWords(new(big.Int).Add(cr.P, big.NewInt(int64(p.Intn(3)-1))))
	case "near2^512":
		v := new(big.Int).Lsh(big.NewInt(1), 512)
		return leWords(v.Sub(v, big.NewInt(1+int64(p.Intn(5)))))
	case "plusone":
		A = base()
		F.Add(&A, &A, &F.One)
	case "order3":
		// the curve through a point with abscissa x of order three
		x := F.In(new(big.Int).SetUint64(c.Seed | 2))
		var x2, x4, n, d cr.El
		F.Sqr(&x2, &x)
		F.Sqr(&x4, &x2)
		three, six, four := F.Int(3), F.Int(6), F.Int(4)
		F.Mul(&x4, &x4, &three)
		F.Mul(&n, &x2, &six)
		F.Add(&n, &n, &x4)
		F.Sub(&n, &F.One, &n)
		F.Mul(&d, &x2, &x)
		F.Mul(&d, &d, &four)
		F.Inv(&d, &d)
		F.Mul(&A, &n, &d)
	case "order4": // A+2 is a square, (1, y) has order four
		A = rnd()
		F.Sqr(&A, &A)
		two := F.Int(2)
		F.Sub(&A, &A, &two)
	}
	return cr.Encode(&A)
}

func runC11(c c11, x *Ctx) error {
	return csidhWithCPU(c.CPU, func() error {
		b := c.key()
		v := cr.Value(b)
		want := v.Cmp(cr.P) < 0 && cr.Supersingular(cr.F.Raw(v))
		r := c.R
		if c.Low && c.Kind == "order3" {
			x3 := cr.F.In(new(big.Int).SetUint64(c.Seed | 2))
			r.R.Prefix = append([]Blob{RawBlob(leWords(cr.F.RawOut(&x3)))}, r.R.Prefix...)
			x.Label("point of order 3 first")
		}
		A := cr.F.Raw(new(big.Int).Mod(v, cr.P))
		pk := new(csidh.PublicKey)
		for i, q := range c.Prev {
			rng := GoodRNG(q.Seed).New()
			d := c
			d.Kind, d.Seed = q.Kind, q.Seed
			d.Base = skSpec{Kind: "single", Seed: q.Seed}
			pb := d.key()
			if q.Op == 3 {
				csidh.GeneratePublicKey(pk, importSk(d.Base.exps()), rng)
				pb = pubBytes(pk)
			} else if !pk.Import(append([]byte{}, pb...)) {
				return Errf("Import refused 64 bytes")
			}
			if q.Op == 2 {
				continue
			}
			pv := cr.Value(pb)
			want := pv.Cmp(cr.P) < 0 && cr.Supersingular(cr.F.Raw(pv))
			var got bool
			if q.Op == 1 {
				var s [64]byte
				got = csidh.DeriveSecret(&s, pk, importSk(make([]int, 74)), rng)
			} else {
				got = csidh.Validate(pk, rng)
			}
			if got != want {
				return Errf("earlier key %d of the object, %s: valid = %v, want %v (%s)", i, Short(pb), got, want, q.Kind)
			}
			x.Label("object reused")
		}
		if !pk.Import(append([]byte{}, b...)) {
			return Errf("Import refused 64 bytes")
		}
		if got := csidh.Validate(pk, r.reader(A)); got != want {
			return Errf("Validate(%s) = %v, want %v (%s)", Short(b), got, want, c.Kind)
		}
		if !bytes.Equal(pubBytes(pk), b) {
			return Errf("Validate changed the key")
		}
		var out, before [64]byte
		NewPRNG(c.Seed).Fill(out[:])
		before = out
		sk := importSk(c.Sk.exps())
		if got := csidh.DeriveSecret(&out, pk, sk, r.reader(A)); got != want {
			return Errf("DeriveSecret with key %s returned %v, want %v (%s)", Short(b), got, want, c.Kind)
		}
		if !want && out != before {
			return Errf("DeriveSecret refused key %s but wrote %s to the output", Short(b), Short(out[:]))
		}
		if want {
			B := cr.Action(A, c.Sk.exps(), c.Seed)
			if w := cr.Encode(&B); !bytes.Equal(out[:], w) {
				return Errf("DeriveSecret with key %s: got %s want %s", Short(b), Short(out[:]), Short(w))
			}
		}
		x.Label("%s -> %v", c.Kind, want)
		x.NT()
		return nil
	})
}

// --- C12 encodings

type c12op struct {
	Op  string `json:"op"`
	Obj int    `json:"o"`
	B   Blob   `json:"b"`
	N   int    `json:"n"`
	Off int    `json:"off"`
}
type c12 struct {
	Ops []c12op `json:"ops"`
}

func genC12(t *rapid.T) c12 {
	return c12{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c12op {
		o := c12op{Op: rapid.SampledFrom([]string{"pubin", "pubin", "pubout", "prvin", "prvin", "prvout", "pubinbad", "pubbadout", "prvinbad", "prvbadout"}).Draw(t, "op"), Obj: rapid.IntRange(0, 1).Draw(t, "o"), Off: rapid.IntRange(0, 15).Draw(t, "off")}
		switch o.Op {
		case "pubin":
			o.B = DrawBlob(t, "b", 64)
		case "prvin":
			o.B = DrawBlob(t, "b", 37)
			o.N = rapid.SampledFrom([]int{0, 0, 0, 1, 27, 100}).Draw(t, "extra")
		case "pubinbad", "pubbadout":
			o.N = rapid.SampledFrom([]int{0, 1, 8, 32, 37, 56, 63, 65, 72, 100, 128}).Draw(t, "n")
			o.B = DrawBlob(t, "b", o.N)
		case "prvinbad", "prvbadout":
			o.N = rapid.IntRange(0, 36).Draw(t, "n")
			o.B = DrawBlob(t, "b", o.N)
		case "prvout":
			o.N = rapid.SampledFrom([]int{0, 0, 1, 27}).Draw(t, "extra")
		}
		return o
	}), 3, 14).Draw(t, "ops")}
}

func runC12(c c12, x *Ctx) error {
	var pub [2]csidh.PublicKey
	var prv [2]csidh.PrivateKey
	var mpub [2][]byte
	var mprv [2][]byte
	for i := range mpub {
		mpub[i], mprv[i] = make([]byte, 64), make([]byte, 37)
	}
	imports := 0
	verify := func(i int) error {
		for k := range pub {
			b := make([]byte, 64)
			if !pub[k].Export(b) || !bytes.Equal(b, mpub[k]) {
				return Errf("after op %d: public key %d exports as %s, want %s", i, k, Short(b), Short(mpub[k]))
			}
			s := make([]byte, 37)
			if !prv[k].Export(s) || !bytes.Equal(s, mprv[k]) {
				return Errf("after op %d: private key %d exports as %s, want %s", i, k, Short(s), Short(mprv[k]))
			}
		}
		return nil
	}
	for i, op := range c.Ops {
		k := op.Obj & 1
		b := op.B.Bytes()
		switch op.Op {
		case "pubin":
			p := PageOf(b)
			ok := pub[k].Import(p.B)
			same := bytes.Equal(p.B, b)
			p.Free()
			if !ok || !same {
				return Errf("op %d: public key import of 64 bytes: ok=%v, input intact=%v", i, ok, same)
			}
			mpub[k] = b
			imports++
		case "prvin":
			in := append(append([]byte{}, b...), bytes.Repeat([]byte{0xc3}, op.N)...)
			p := PageOf(in)
			ok := prv[k].Import(p.B)
			same := bytes.Equal(p.B, in)
			p.Free()
			if op.N > 0 && !ok {
				x.Label("longer input refused") // also fine
				break
			}
			if !ok || !same {
				return Errf("op %d: private key import of %d bytes: ok=%v, input intact=%v", i, len(in), ok, same)
			}
			mprv[k] = b
			imports++
		case "pubinbad":
			if pub[k].Import(b) {
				return Errf("op %d: public key of %d bytes accepted", i, len(b))
			}
			x.Label("refused")
		case "prvinbad":
			if prv[k].Import(b) {
				return Errf("op %d: private key of %d bytes accepted", i, len(b))
			}
			x.Label("refused")
		case "pubbadout":
			g := NewGuard(op.N, op.Off)
			if pub[k].Export(g.BCap()) {
				return Errf("op %d: public key exported to %d bytes", i, op.N)
			}
			if err := g.Check(0); err != nil {
				return Errf("op %d: refused export: %v", i, err)
			}
			x.Label("refused")
		case "prvbadout":
			g := NewGuard(op.N, op.Off)
			if prv[k].Export(g.BCap()) {
				return Errf("op %d: private key exported to %d bytes", i, op.N)
			}
			if err := g.Check(0); err != nil {
				return Errf("op %d: refused export: %v", i, err)
			}
			x.Label("refused")
		case "pubout":
			g := NewGuard(64, op.Off)
			if !pub[k].Export(g.BCap()) || !bytes.Equal(g.B(), mpub[k]) {
				return Errf("op %d: public key export: got %s want %s", i, Short(g.B()), Short(mpub[k]))
			}
			if err := g.Check(64); err != nil {
				return Errf("op %d: %v", i, err)
			}
		case "prvout":
			g := NewGuard(37+op.N, op.Off)
			ok := prv[k].Export(g.BCap())
			if !ok && op.N > 0 {
				x.Label("bigger output refused")
				break
			}
			if !ok || !bytes.Equal(g.B()[:37], mprv[k]) {
				return Errf("op %d: private key export: got %s want %s", i, Short(g.B()), Short(mprv[k]))
			}
			if err := g.Check(37); err != nil {
				return Errf("op %d: %v", i, err)
			}
		}
		if err := verify(i); err != nil {
			return err
		}
	}
	if imports > 0 {
		x.NT()
	}
	return nil
}

// c12l: buffers of one wrong length for every operation.
type c12l struct {
	N    int  `json:"n"`
	Zero bool `json:"zero"`
}

func runC12l(c c12l, x *Ctx) error {
	good, goodS := make([]byte, 64), make([]byte, 37)
	NewPRNG(3).Fill(good)
	NewPRNG(4).Fill(goodS)
	var pub csidh.PublicKey
	var prv csidh.PrivateKey
	if !pub.Import(good) || !prv.Import(goodS) {
		return Errf("import of keys of the right length refused")
	}
	in := make([]byte, c.N)
	if !c.Zero {
		NewPRNG(uint64(c.N)).Fill(in)
	}
	if c.N != 64 {
		g := NewGuard(c.N, c.N&15)
		if pub.Export(g.BCap()) {
			return Errf("public key exported to %d bytes", c.N)
		}
		if err := g.Check(0); err != nil {
			return Errf("refused export to %d bytes: %v", c.N, err)
		}
		if pub.Import(in) {
			return Errf("public key of %d bytes accepted", c.N)
		}
		x.NT()
	}
	if c.N < 37 {
		g := NewGuard(c.N, c.N&15)
		if prv.Export(g.BCap()) {
			return Errf("private key exported to %d bytes", c.N)
		}
		if err := g.Check(0); err != nil {
			return Errf("refused export to %d bytes: %v", c.N, err)
		}
		if prv.Import(in) {
			return Errf("private key of %d bytes accepted", c.N)
		}
	}
	b, s := make([]byte, 64), make([]byte, 37)
	if !pub.Export(b) || !bytes.Equal(b, good) {
		return Errf("public key changed by refused calls with %d bytes", c.N)
	}
	if !prv.Export(s) || !bytes.Equal(s, goodS) {
		return Errf("private key changed by refused calls with %d bytes", c.N)
	}
	return nil
}

// c12b: a key that travelled through its encoding acts like the original.
type c12b struct {
	Seed  uint64 `json:"seed"`
	Sk    skSpec
	Dirty Blob
	R     crng
}

func genC12b(t *rapid.T) c12b {
	return c12b{rapid.Uint64().Draw(t, "seed"), drawSk(t, "sk", skCheap), DrawBlob(t, "dirty", 64), drawCrng(t, "rng")}
}

func runC12b(c c12b, x *Ctx) error {
	var k, k2, k3 csidh.PrivateKey
	if err := csidh.GeneratePrivateKey(&k, GoodRNG(c.Seed).New()); err != nil {
		return Errf("GeneratePrivateKey: %v", err)
	}
	b := make([]byte, 37)
	k.Export(b)
	k2.Import(c.Dirty.Bytes()[:37])
	if !k2.Import(b) {
		return Errf("import of an exported private key refused")
	}
	var p1, p2 csidh.PublicKey
	p2.Import(c.Dirty.Bytes())
	csidh.GeneratePublicKey(&p1, &k, c.R.reader(cr.El{}))
	csidh.GeneratePublicKey(&p2, &k2, GoodRNG(c.Seed+1).New())
	if !bytes.Equal(pubBytes(&p1), pubBytes(&p2)) {
		return Errf("private key %x imported into a used object acts differently", b)
	}
	var p3 csidh.PublicKey
	p3.Import(c.Dirty.Bytes())
	if !p3.Import(pubBytes(&p1)) {
		return Errf("import of an exported public key refused")
	}
	k3.Import(packExps(c.Sk.exps()))
	var s1, s2 [64]byte
	if !csidh.DeriveSecret(&s1, &p1, &k3, c.R.reader(cr.El{})) || !csidh.DeriveSecret(&s2, &p3, &k3, GoodRNG(c.Seed+2).New()) {
		return Errf("honest public key refused")
	}
	if s1 != s2 {
		return Errf("public key %s imported into a used object acts differently", Short(pubBytes(&p1)))
	}
	x.NT()
	return nil
}

// --- C13 sampling

type c13 struct {
	R     RNG `json:"rng"`
	Fail  int `json:"fail"` // permille of what a full run needs, -1: none
	Kind  string
	Dirty Blob
}

func genC13(t *rapid.T) c13 {
	c := c13{R: GoodRNG(rapid.Uint64().Draw(t, "seed")), Fail: -1, Dirty: DrawBlob(t, "dirty", 37)}
	// streams with unusual starts
	n := rapid.IntRange(0, 3).Draw(t, "npre")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"zero", "ff", "limbs", "low", "runs", "edge"}).Draw(t, "k")
		l := rapid.SampledFrom([]int{1, 37, 63, 64, 65, 128, 200}).Draw(t, "l")
		if k == "edge" {
			b := make([]byte, l)
			p := NewPRNG(rapid.Uint64().Draw(t, "es"))
			for j := range b {
				b[j] = []byte{4, 5, 6, 7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0x80, 0x7f, 0x0f, 0x10, 0xf0, 0, 1}[p.Intn(16)]
			}
			c.R.Prefix = append(c.R.Prefix, RawBlob(b))
		} else {
			c.R.Prefix = append(c.R.Prefix, Blob{Kind: k, Len: l, Seed: rapid.Uint64().Draw(t, "s")})
		}
	}
	c.R.Chunks = DrawChunks(t, "chunks")
	c.R.ErrKind = rapid.SampledFrom([]string{"", "eof", "ueof"}).Draw(t, "errkind")
	c.R.FailWithData = rapid.Bool().Draw(t, "fwd")
	if rapid.Bool().Draw(t, "fails") {
		c.Fail = rapid.IntRange(0, 1200).Draw(t, "fail")
	}
	return c
}

func runC13(c c13, x *Ctx) error {
	var ref csidh.PrivateKey
	plain := c.R
	plain.Chunks = nil
	rr := plain.New()
	if err := csidh.GeneratePrivateKey(&ref, rr); err != nil {
		return Errf("GeneratePrivateKey: %v", err)
	}
	need := rr.N
	want := make([]byte, 37)
	ref.Export(want)
	// rejection sampling: the first 74 delivered bytes in [-5,5], whatever
	// their order
	src, count := plain.New(), map[int]int{}
	for i, v := range unpackExps(want) {
		if v < -5 || v > 5 {
			return Errf("exponent %d of a generated private key is %d", i, v)
		}
		count[v]++
		for {
			var b [1]byte
			if _, err := io.ReadFull(src, b[:]); err != nil {
				return Errf("harness: %v", err)
			}
			if w := int8(b[0]); w >= -5 && w <= 5 {
				count[int(w)]--
				break
			}
		}
	}
	for v := -5; v <= 5; v++ {
		if count[v] != 0 {
			return Errf("a generated private key has %d more exponents %d than the first 74 bytes in [-5,5] delivered by the source", count[v], v)
		}
	}
	var k csidh.PrivateKey
	k.Import(c.Dirty.Bytes())
	r := c.R
	fails := false
	if c.Fail >= 0 {
		r.FailAt = need * c.Fail / 1000
		if c.Fail > 1150 {
			r.FailAt = need // all that is needed is delivered
		}
		fails = r.FailAt < need
	}
	rd := r.New()
	err := csidh.GeneratePrivateKey(&k, rd)
	if fails {
		x.Label("failing RNG")
		x.NT()
		if err == nil {
			return Errf("GeneratePrivateKey reported success although the RNG failed after %d of %d bytes (reads of %v)", r.FailAt, need, r.Chunks)
		}
		return nil
	}
	if err != nil {
		return Errf("GeneratePrivateKey: %v, the RNG didn't fail", err)
	}
	got := make([]byte, 37)
	k.Export(got)
	if !bytes.Equal(got, want) {
		return Errf("generated key depends on read sizes %v or on the previous content of the key: %x, %x", r.Chunks, got, want)
	}
	if len(r.Chunks) > 0 || len(r.Prefix) > 0 {
		x.NT()
	}
	return nil
}

// statCase checks the distribution over many keys.
type statCase struct {
	Seed uint64 `json:"seed"`
	Keys int    `json:"keys"`
}

// chi2Bad says if the statistic is absurd (p-value below about 1e-12).
func chi2Bad(counts []int, n float64) (float64, bool) {
	k := float64(len(counts))
	e := n / k
	s := 0.0
	for _, c := range counts {
		s += (float64(c) - e) * (float64(c) - e) / e
	}
	df := k - 1
	// Wilson-Hilferty
	z := (math.Cbrt(s/df) - (1 - 2/(9*df))) / math.Sqrt(2/(9*df))
	return s, z > 7.5
}

func runStat(c statCase, x *Ctx) error {
	var pos [74][11]int
	var pair [73][11 * 11]int
	var all [11]int
	var lag [74][11 * 11]int // disjoint pairs at this distance
	var nlag [74]int
	var next [11 * 11]int // the last exponent of a key and the first of the next one
	last := -1
	seen := map[string]bool{}
	r := GoodRNG(c.Seed)
	r.Budget = 1 << 30
	rd := r.New()
	for i := 0; i < c.Keys; i++ {
		var k csidh.PrivateKey
		if err := csidh.GeneratePrivateKey(&k, rd); err != nil {
			return Errf("GeneratePrivateKey: %v", err)
		}
		b := make([]byte, 37)
		k.Export(b)
		if seen[string(b)] {
			return Errf("the same private key was generated twice in %d", i)
		}
		seen[string(b)] = true
		e := unpackExps(b)
		for j, v := range e {
			if v < -5 || v > 5 {
				return Errf("exponent %d of a generated private key is %d", j, v)
			}
			pos[j][v+5]++
			all[v+5]++
			if j > 0 {
				pair[j-1][(e[j-1]+5)*11+v+5]++
			}
			for d := 1; d <= j; d++ {
				if j/d%2 == 1 {
					lag[d][(e[j-d]+5)*11+v+5]++
					nlag[d]++
				}
			}
		}
		if last >= 0 {
			next[last*11+e[0]+5]++
		}
		last = e[73] + 5
	}
	if s, bad := chi2Bad(all[:], float64(74*c.Keys)); bad {
		return Errf("exponents of %d keys aren't uniform on [-5,5]: counts %v (chi2=%.1f)", c.Keys, all, s)
	}
	if s, bad := chi2Bad(next[:], float64(c.Keys-1)); bad {
		return Errf("exponents of consecutive keys aren't independent in %d keys (chi2=%.1f)", c.Keys, s)
	}
	for d := 1; d < 74; d++ {
		if s, bad := chi2Bad(lag[d][:], float64(nlag[d])); bad {
			return Errf("exponents at distance %d aren't independent in %d keys (chi2=%.1f)", d, c.Keys, s)
		}
	}
	for j := range pos {
		if s, bad := chi2Bad(pos[j][:], float64(c.Keys)); bad {
			return Errf("exponent %d isn't uniform on [-5,5]: counts %v in %d keys (chi2=%.1f)", j, pos[j], c.Keys, s)
		}
	}
	for j := range pair {
		if s, bad := chi2Bad(pair[j][:], float64(c.Keys)); bad {
			return Errf("exponents %d and %d aren't independent in %d keys (chi2=%.1f)", j, j+1, c.Keys, s)
		}
	}
	x.NT()
	return nil
}

// c13b: randomness failures in operations on curves are never swallowed.
type c13b struct {
	Op   string `json:"op"`
	Sk   skSpec
	R    RNG `json:"rng"`
	Fail int `json:"fail"`
}

func genC13b(t *rapid.T) c13b {
	c := c13b{Op: rapid.SampledFrom([]string{"public", "validate", "derive"}).Draw(t, "op"), Sk: drawSk(t, "sk", []string{"single", "sparse", "unit"}), R: GoodRNG(rapid.Uint64().Draw(t, "seed")), Fail: rapid.IntRange(0, 1100).Draw(t, "fail")}
	c.R.Chunks = DrawChunks(t, "chunks")
	c.R.ErrKind = rapid.SampledFrom([]string{"", "eof", "ueof"}).Draw(t, "errkind")
	c.R.FailWithData = rapid.Bool().Draw(t, "fwd")
	return c
}

func runC13b(c c13b, x *Ctx) error {
	sk := importSk(c.Sk.exps())
	run := func(r *Reader) bool {
		switch c.Op {
		case "public":
			pk := new(csidh.PublicKey)
			csidh.GeneratePublicKey(pk, sk, r)
			return true
		case "validate":
			return csidh.Validate(new(csidh.PublicKey), r)
		}
		var out [64]byte
		return csidh.DeriveSecret(&out, new(csidh.PublicKey), sk, r)
	}
	r := c.R
	rd := r.New()
	if !run(rd) {
		return Errf("%s failed with a good RNG", c.Op)
	}
	need := rd.N
	r.FailAt = need * c.Fail / 1000
	if need == 0 {
		return nil
	}
	ok := false
	if r.FailAt >= need {
		// all that is needed is delivered
		r.FailAt = need
		cg := Try(func() { ok = run(r.New()) })
		if cg.Panicked || !ok {
			return Errf("%s failed although the RNG delivered all %d bytes (reads of %v, %q, data with error: %v; %v)", c.Op, need, r.Chunks, r.ErrKind, r.FailWithData, cg)
		}
		return nil
	}
	cg := Try(func() { ok = run(r.New()) })
	if !cg.Panicked && ok {
		return Errf("%s succeeded although the RNG failed after %d of %d bytes", c.Op, r.FailAt, need)
	}
	x.NT()
	return nil
}

// --- C14 field arithmetic

type csidhFpOps struct {
	mul, add, sub func(r, x, y *[8]uint64)
	mul512        func(r, x *[8]uint64, c uint64)
	mul576        func(r *[9]uint64, x *[8]uint64, c uint64)
	cswap         func(x, y *[8]uint64, c uint8)
	exp512        func(r, b, e *[8]uint64)
	exp64         func(r, b *[8]uint64, e uint64)
	isLess        func(x, y *[8]uint64) bool
	nonRes        func(x *[8]uint64) int
	isZero        func(x *[8]uint64) bool
	equal         func(x, y *[8]uint64) bool
}

var csidhFp *csidhFpOps

type c14 struct {
	CPU   string `json:"cpu"`
	Op    string `json:"op"`
	X     Blob   `json:"x"`
	Y     Blob   `json:"y"`
	C     uint64 `json:"c"`
	Alias string `json:"alias"`
	Near  bool   `json:"near"` // x counted down from p
	Swap  bool   `json:"swap"`
	Solve solve  `json:"solve,omitempty"`
}

func genC14(t *rapid.T) c14 {
	c := c14{CPU: drawCPU(t), Op: rapid.SampledFrom([]string{"mul", "mul", "mul", "add", "sub", "add", "sub", "mul512", "mul512", "mul576", "cswap", "exp512", "exp64", "isless", "nonres", "iszero", "equal"}).Draw(t, "op")}
	c.X, c.Y = DrawBlob(t, "x", 64), DrawBlob(t, "y", 64)
	c.C = rapid.SampledFrom([]uint64{0, 1, 2, 3, 587, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0)}).Draw(t, "c")
	if rapid.Bool().Draw(t, "crnd") {
		c.C = rapid.Uint64().Draw(t, "cv")
	}
	c.Alias = rapid.SampledFrom([]string{"no", "no", "rx", "ry", "xy", "all"}).Draw(t, "alias")
	c.Near = rapid.IntRange(0, 4).Draw(t, "near") == 0
	c.Swap = rapid.Bool().Draw(t, "swap")
	switch c.Op {
	case "mul", "mul512", "mul576", "exp64":
		c.Solve = drawSolve(t, solveMulKinds)
	case "add", "sub":
		c.Solve = drawSolve(t, solveAddKinds)
	}
	return c
}

func toW(v *big.Int) (w [8]uint64) {
	b := leWords(v)
	for i := range b {
		w[i/8] |= uint64(b[i]) << uint(8*(i%8))
	}
	return
}
func fromW(w []uint64) *big.Int {
	r := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		r.Lsh(r, 64).Or(r, new(big.Int).SetUint64(w[i]))
	}
	return r
}

var two512 = new(big.Int).Lsh(big.NewInt(1), 512)
var rInv512 = new(big.Int).ModInverse(two512, cr.P)

func runC14(c c14, x *Ctx) error {
	return csidhWithCPU(c.CPU, func() error { return runC14in(c, x) })
}

func runC14in(c c14, x *Ctx) error {
	o := csidhFp
	p := cr.P
	bx, by := cr.Value(c.X.Bytes()), cr.Value(c.Y.Bytes())
	reduce := c.Op == "mul" || c.Op == "add" || c.Op == "sub" || c.Op == "exp512" || c.Op == "exp64" || c.Op == "nonres"
	if c.Near {
		m := new(big.Int).Mod(bx, big.NewInt(1000))
		bx = new(big.Int).Sub(p, m.Add(m, big.NewInt(1)))
	}
	if reduce {
		bx.Mod(bx, p)
		if c.Op != "exp512" {
			by.Mod(by, p)
		}
	}
	if c.Solve.Kind != "" {
		sv := newSolver(c.Solve.Seed, 8, p)
		var u, v *big.Int
		ok := false
		switch c.Op {
		case "add", "sub":
			u, v, ok = sv.add(c.Solve.Kind, p)
		case "mul512", "mul576": // by one word
			for try := 0; try < 20 && !ok; try++ {
				w, m := sv.operand(8), make([]uint64, 8)
				if sv.column(m, w, sv.Intn(8), false, two512) && m[0] != 0 {
					u, v, c.C, ok = fromW(w), by, m[0], true
				}
			}
		default:
			u, v, ok = sv.mul(c.Solve.Kind, p)
		}
		if ok {
			bx, by = u, v
			x.Label("solved %s", c.Solve.Kind)
		}
	}
	if c.Alias == "xy" || c.Alias == "all" {
		by = bx
	}
	w1, w2 := toW(bx), toW(by)
	var r [8]uint64
	pr, px, py := &r, &w1, &w2
	switch c.Alias {
	case "rx":
		pr = px
	case "ry":
		pr = py
	case "xy":
		py = px
	case "all":
		py = px
		pr = px
	}
	x.NT()
	x.Label("%s %s", c.Op, c.CPU)
	diff := func(got []uint64, want *big.Int) error {
		if g := fromW(got); g.Cmp(want) != 0 {
			return Errf("%s (cpu %s, aliasing %s): x=%x y=%x c=%x: got %x, want %x", c.Op, c.CPU, c.Alias, bx, by, c.C, g, want)
		}
		return nil
	}
	switch c.Op {
	case "mul", "add", "sub":
		var w *big.Int
		switch c.Op {
		case "mul":
			w = new(big.Int).Mul(bx, by)
			w.Mul(w, rInv512)
			o.mul(pr, px, py)
		case "add":
			w = new(big.Int).Add(bx, by)
			o.add(pr, px, py)
		default:
			w = new(big.Int).Sub(bx, by)
			o.sub(pr, px, py)
		}
		return diff(pr[:], w.Mod(w, p))
	case "mul512":
		w := new(big.Int).Mul(bx, new(big.Int).SetUint64(c.C))
		w.Mod(w, two512)
		if pr == py && pr != px {
			pr = &r
		}
		o.mul512(pr, px, c.C)
		return diff(pr[:], w)
	case "mul576":
		var r9 [9]uint64
		for i := range r9 {
			r9[i] = c.C
		}
		o.mul576(&r9, px, c.C)
		return diff(r9[:], new(big.Int).Mul(bx, new(big.Int).SetUint64(c.C)))
	case "cswap":
		ch := uint8(c.C & 1)
		o.cswap(&w1, &w2, ch)
		a, b := bx, by
		if ch == 1 {
			a, b = by, bx
		}
		if err := diff(w1[:], a); err != nil {
			return err
		}
		return diff(w2[:], b)
	case "exp512", "exp64":
		e := by
		base := new(big.Int).Mul(bx, rInv512)
		if c.Op == "exp64" {
			e = new(big.Int).SetUint64(c.C)
		}
		w := new(big.Int).Exp(base, e, p)
		w.Mul(w, two512)
		w.Mod(w, p)
		if c.Op == "exp512" {
			if c.Alias == "rx" {
				o.exp512(px, px, py)
				return diff(px[:], w)
			}
			o.exp512(&r, px, py)
			return diff(r[:], w)
		}
		if c.Alias == "rx" || c.Alias == "all" {
			o.exp64(px, px, c.C)
			return diff(px[:], w)
		}
		o.exp64(&r, px, c.C)
		return diff(r[:], w)
	case "isless":
		if g, w := o.isLess(&w1, &w2), bx.Cmp(by) < 0; g != w {
			return Errf("isLess(%x, %x) = %v", bx, by, g)
		}
	case "nonres":
		v := new(big.Int).Mul(bx, rInv512)
		v.Mod(v, p)
		if v.Sign() == 0 {
			return nil
		}
		w := 0
		if big.Jacobi(v, p) < 0 {
			w = 1
		}
		if g := o.nonRes(&w1); g != w {
			return Errf("isNonQuadRes(%x) = %d, want %d", bx, g, w)
		}
	case "iszero":
		if g, w := o.isZero(&w1), bx.Sign() == 0; g != w {
			return Errf("isZero(%x) = %v", bx, g)
		}
	case "equal":
		if c.Swap {
			w2 = w1
			w2[int(c.C%8)] ^= 1 << uint(c.C>>3%64)
			by = fromW(w2[:])
		}
		if g, w := o.equal(&w1, &w2), bx.Cmp(by) == 0; g != w {
			return Errf("equal(%x, %x) = %v", bx, by, g)
		}
	}
	return nil
}

var _ = fpref.Max

func init() {
	as := []string{"the class group action is the one of ia.cr/2018/383 on y^2=x^3+Ax^2+x; reference: Velu formulas over an independent field implementation checked against math/big"}
	cpuNote := "; CPU paths (MULX/ADX, MULX, plain) selected per case"
	Register(&Prop{ID: "C09", Assumptions: as[:0], Suites: []*Suite{
		Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "one object used more often than a small counter can tell; every result compared"}, func(tier string, emit func(endur)) {
			emit(endur{N: 260, Seed: seedBase()})
		}, runEndurCsidh),
		Gen(Suite{Name: "agreement", Quick: 400, Thorough: 6000, Rule: "two or three parties with random or edge private keys, shared secrets compared in every order" + cpuNote}, genC09(skKinds), runC09),
		Gen(Suite{Name: "agreement-cheap", Quick: 600, Thorough: 6000, Rule: "as agreement with sparse keys"}, genC09(skCheap), runC09),
		Gen(Suite{Name: "history", Quick: 360, Thorough: 6000, Rule: "key objects used repeatedly with changing contents, refused derivations in between; compared with a peer using fresh objects; non-trivial with at least two derivations"}, genC09h, runC09h),
		Gen(Suite{Name: "agreement-noasm", Config: "noasm", Quick: 96, Thorough: 1000, Rule: "as agreement, pure Go build"}, genC09(skCheap), runC09),
	}})
	all := []string{"ref0", "ref", "ref", "inverse", "twist", "add", "rng"}
	Register(&Prop{ID: "C10", Assumptions: as, Suites: []*Suite{
		Gen(Suite{Name: "action", Quick: 800, Thorough: 8000, Rule: "non-zero exponent vector; result compared with the reference or through an algebraic law, with randomness steered to low-order points" + cpuNote}, genC10(all, skKinds), runC10),
		Gen(Suite{Name: "action-cheap", Quick: 1200, Thorough: 8000, Rule: "as action with sparse vectors"}, genC10(all, skCheap), runC10),
		Gen(Suite{Name: "action-noasm", Config: "noasm", Quick: 120, Thorough: 1000, Rule: "as action, pure Go build"}, genC10([]string{"ref", "inverse", "rng"}, skCheap), runC10),
		Enum(Suite{Name: "generators", Rule: "every prime ideal and its inverse on a non-trivial curve, compared with the reference"}, func(tier string, emit func(c10)) {
			for i := 0; i < 148; i++ {
				emit(c10{CPU: []string{"adx", "bmi2", "plain"}[i%3], Mode: "ref", Base: skSpec{"unit", uint64(i * 7)}, Sk: skSpec{"unit", uint64(i)}, R: []crng{{R: GoodRNG(uint64(i))}}})
			}
		}, runC10),
		Enum(Suite{Name: "patience", Rule: "the random source delivers useless points (of low order, or out of range) up to 400 times; result compared with the reference"}, func(tier string, emit func(c10)) {
			for i, n := range []int{12, 40, 70, 130, 200, 260, 400} {
				for j, k := range []string{"zero", "big", "low", "one", "pminus1", "minus1"} {
					for m, mode := range []string{"ref", "ref0", "ref"} {
						pt := crPt{Kind: k, Idx: []int{2 * i, 60 + i}, Seed: uint64(n), Rep: n}
						r := crng{R: GoodRNG(uint64(n)), Pts: []crPt{pt}}
						if m == 2 { // validation is content with the first point
							r.Pts = []crPt{{Kind: "missing", Seed: uint64(n)}, pt}
						}
						emit(c10{CPU: []string{"adx", "bmi2", "plain"}[(i+j)%3], Mode: mode, Base: skSpec{"unit", uint64(i * 7)}, Sk: skSpec{[]string{"unit", "single"}[i%2], uint64(i + 9*j + m)}, R: []crng{r}})
					}
				}
			}
		}, runC10),
	}})
	Register(&Prop{ID: "C11", Assumptions: append(as, "supersingularity oracle: p+1 annihilates six points of curve and twist"), Suites: []*Suite{
		Gen(Suite{Name: "validate", Quick: 4000, Thorough: 24000, Rule: "every case: a curve of a stated kind with the verdict of an independent supersingularity test, both for Validate and DeriveSecret" + cpuNote}, genC11, runC11),
		Gen(Suite{Name: "validate-noasm", Config: "noasm", Quick: 240, Thorough: 3000, Rule: "as validate, pure Go build"}, genC11, runC11),
	}})
	Register(&Prop{ID: "C12", Suites: []*Suite{
		Gen(Suite{Name: "objects", Quick: 100000, Thorough: 1000000, Rule: "history of accepted and refused imports and exports on reused objects, compared with a model after every step; at least one accepted import"}, genC12, runC12),
		Enum(Suite{Name: "wrong-lengths", Rule: "every length up to 400 bytes other than 64 (and below 37 for private keys) refused by import and export, without effect"}, func(tier string, emit func(c12l)) {
			for n := 0; n <= 400; n++ {
				emit(c12l{n, false})
				emit(c12l{n, true})
			}
		}, runC12l),
		Gen(Suite{Name: "behaviour", Quick: 600, Thorough: 3000, Rule: "a key and its re-imported copy give the same public keys and secrets"}, genC12b, runC12b),
	}})
	Register(&Prop{ID: "C13", Assumptions: []string{"uniformity is only tested up to a chi-square statistic with a false alarm rate below 1e-12 per tree; the stream is fixed by the seed"}, Suites: []*Suite{
		Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "keys made in one object many times compared with fresh objects; sources that deliver unusable bytes for long"}, endurCsidhGen, runEndurCsidhGen),
		Gen(Suite{Name: "keys", Quick: 100000, Thorough: 1000000, Rule: "a stream with unusual start, short reads or a failure"}, genC13, runC13),
		Enum(Suite{Name: "distribution", Rule: "each case: chi-square of all exponents, of every exponent, of every neighbouring pair and of pairs at every distance over many keys", CaseLimit: 800}, func(tier string, emit func(statCase)) {
			n, keys := 8, 250000
			if tier == "thorough" {
				n, keys = 64, 500000
			}
			for i := 0; i < n; i++ {
				emit(statCase{seedBase() + uint64(i), keys})
			}
		}, runStat),
		Gen(Suite{Name: "rng-failure", Quick: 6000, Thorough: 30000, Rule: "RNG fails before the amount a successful run needs"}, genC13b, runC13b),
	}})
	Register(&Prop{ID: "C14", Assumptions: []string{"math/big"}, Suites: []*Suite{
		Gen(Suite{Name: "fp511", Hook: "hk_csidhfp", Quick: 480000, Thorough: 4800000, Rule: "every case: one operation with edge-biased operands and aliasing compared with math/big" + cpuNote}, genC14, runC14),
		Gen(Suite{Name: "fp511-noasm", Hook: "hk_csidhfp", Config: "noasm", Quick: 192000, Thorough: 1920000, Rule: "as fp511, pure Go build"}, genC14, runC14),
		Gen(Suite{Name: "fp511-386", Hook: "hk_csidhfp", Config: "386", Quick: 128000, Thorough: 1280000, Rule: "as fp511, 32-bit build"}, genC14, runC14),
		Gen(Suite{Name: "through-api", Quick: 64, Thorough: 1000, Rule: "group action compared with a reference over an independent field implementation"}, genC10([]string{"ref"}, skCheap), runC10),
	}})
}
