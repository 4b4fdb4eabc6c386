package checks

import (
	"bytes"
	"crypto/sha3"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"unsafe"

	"mkem"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/drbg"
	"pgregory.net/rapid"
	. "verif/core"
	cr "verif/ref/csidhref"
	sr "verif/ref/sidhref"
)

// MultiKEM keeps its ciphertexts in unexported fields, and there is no other
// way to get at them. Fields are found by name, or by shape if renamed.

func rawField(m *mkem.MultiKEM, name string, shape func(t reflect.Type) bool) reflect.Value {
	v := reflect.ValueOf(m).Elem()
	f := v.FieldByName(name)
	if !f.IsValid() || !shape(f.Type()) {
		f = reflect.Value{}
		for i := 0; i < v.NumField(); i++ {
			if shape(v.Type().Field(i).Type) {
				f = v.Field(i)
				break
			}
		}
	}
	if !f.IsValid() {
		panic(HarnessError{"MultiKEM: no field like " + name})
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func bytesIn(v reflect.Value) []byte {
	if v.Kind() == reflect.Array {
		return unsafe.Slice((*byte)(v.Addr().UnsafePointer()), v.Len())
	}
	return v.Bytes()
}

func isBytes(t reflect.Type, min int) bool {
	switch t.Kind() {
	case reflect.Array:
		return t.Elem().Kind() == reflect.Uint8 && t.Len() >= min
	case reflect.Slice:
		return t.Elem().Kind() == reflect.Uint8
	}
	return false
}

// multiCt0 is the ephemeral key inside m.
func multiCt0(m *mkem.MultiKEM) []byte {
	return bytesIn(rawField(m, "ct0", func(t reflect.Type) bool { return isBytes(t, 564) }))
}

// multiCt is the ciphertext of recipient i inside m.
func multiCt(m *mkem.MultiKEM, i int) []byte {
	v := rawField(m, "cts", func(t reflect.Type) bool {
		return t.Kind() == reflect.Slice && isBytes(t.Elem(), 32)
	})
	return bytesIn(v.Index(i))
}

// --- C25 correctness of MultiKEM

type multiModel struct {
	m      []byte // message
	ct0    []byte
	key    []byte
	cts    [][]byte
	recip  []int
	allocN int
}

// multiExpect computes what encapsulation of m to the public keys gives.
func multiExpect(s *sr.Set, m []byte, pks [][]byte) (ct0 []byte, cts [][]byte, key []byte) {
	sk := sr.LE(maskScalar(s, 0, sr.Shake256(s.Bytes[0], []byte{1}, m)))
	w := s.Public(0, sk)
	ct0 = s.Enc(w[:]...)
	for _, pk := range pks {
		pp := s.DecPub(pk)
		h := sr.Shake256(s.Msg, []byte{2}, s.Enc(s.Secret(0, sk, &pp)))
		for i := range h {
			h[i] ^= m[i]
		}
		cts = append(cts, h)
	}
	return ct0, cts, sr.Shake256(s.Kem, []byte{3}, m)
}

type c25op struct {
	Op    string `json:"op"`
	Recip []int  `json:"recip,omitempty"`
	M     Blob   `json:"m"`
	N     int    `json:"n"`
	X     int    `json:"x"`
	Alias bool   `json:"alias,omitempty"`
	Spec  bool   `json:"spec,omitempty"`
	Aim   *aim   `json:"aim,omitempty"` // instead of M
}
type c25 struct {
	Set    int    `json:"set"`
	CPU    string `json:"cpu"`
	N      int    `json:"n"`
	Keys   []sidhKey
	Seed   uint64
	Chunks []int
	Box    int `json:"box,omitempty"`
	Ops    []c25op
}

func genC25(maxKeys, maxOps int) func(t *rapid.T) c25 {
	return func(t *rapid.T) c25 {
		c := c25{Set: drawSet(t), CPU: drawCPU(t), N: rapid.IntRange(1, 5).Draw(t, "n"), Seed: rapid.Uint64().Draw(t, "seed"), Chunks: DrawChunks(t, "chunks"), Box: drawBox(t)}
		s := sr.ByName(c.Set)
		c.Keys = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sidhKey { return drawSidhKey(t, "key", s, 1) }), 1, maxKeys).Draw(t, "keys")
		op := func(kind string) c25op {
			o := c25op{Op: kind}
			switch kind {
			case "enc":
				o.M = DrawBlob(t, "m", s.Msg)
				o.Recip = rapid.SliceOfN(rapid.IntRange(0, 4), 0, 5).Draw(t, "recip")
				o.X = rapid.SampledFrom([]int{0, 0, 1, 9, 100}).Draw(t, "x")
				o.Spec = rapid.IntRange(0, 3).Draw(t, "spec") == 0
			case "dec":
				o.N = rapid.IntRange(0, 4).Draw(t, "i")
				o.X = rapid.SampledFrom([]int{0, 0, 1, 9, 100}).Draw(t, "x")
				o.Alias = rapid.Bool().Draw(t, "alias")
			case "fail":
				o.N = rapid.IntRange(0, 31).Draw(t, "n")
			case "single":
				o.M = DrawBlob(t, "m", s.Msg)
				o.N = rapid.IntRange(0, 4).Draw(t, "i")
			case "alloc":
				o.N = rapid.IntRange(0, 6).Draw(t, "n")
				o.X = rapid.IntRange(0, 2).Draw(t, "x")
			}
			return o
		}
		n := rapid.IntRange(1, maxOps).Draw(t, "nops")
		c.Ops = append(c.Ops, op("enc"), op("dec"))
		for i := 0; i < n; i++ {
			c.Ops = append(c.Ops, op(rapid.SampledFrom([]string{"enc", "enc", "dec", "dec", "dec", "dec", "all", "reset", "fail", "alloc", "baddec", "single"}).Draw(t, "op")))
		}
		c.Ops = append(c.Ops, op("all"))
		return c
	}
}

func runC25(c c25, x *Ctx) error { return sidhWithCPU(c.CPU, func() error { return runC25in(c, x) }) }

func runC25in(c c25, x *Ctx) error {
	s := sr.ByName(c.Set)
	rng := GoodRNG(c.Seed)
	rng.Chunks = c.Chunks
	base := rng.New()
	src := &swapRNG{base}
	var m mkem.MultiKEM
	if b := c.Seed % 4; b < 3 {
		m.Allocate(sidhIDs[[]int{434, 503, 751}[b]], uint(c.Seed/4%5), src)
	}
	m.Allocate(sidhIDs[c.Set], uint(c.N), src)
	n := c.N
	var pairs []*sikePair
	for _, k := range c.Keys {
		p, err := mkSike(c.Set, k)
		if err != nil {
			return err
		}
		pairs = append(pairs, p)
	}
	var cur *multiModel
	past := map[string]bool{}
	decs, most := 0, 0
	// key objects that get new content for every operation
	var box sikeBox
	var boxes [6]sikeBox
	dec := func(i, at, extra int, alias bool) error {
		p, err := box.use(c.Set, c.Box, i+at, pairs[cur.recip[at]])
		if err != nil {
			return err
		}
		g := NewGuard(s.Kem+extra, i)
		ct := append([]byte{}, multiCt(&m, at)[:s.Msg]...)
		if alias {
			ct = multiCt(&m, at)[:s.Msg]
		}
		if !bytes.Equal(ct, cur.cts[at]) {
			return Errf("op %d: the ciphertext of recipient %d changed after encapsulation", i, at)
		}
		if err := m.Decapsulate(g.BCap(), p.prv, p.pub, ct); err != nil {
			return Errf("op %d: Decapsulate: %v", i, err)
		}
		if err := g.Check(s.Kem); err != nil {
			return Errf("op %d: secret: %v", i, err)
		}
		if !bytes.Equal(g.B()[:s.Kem], cur.key) {
			return Errf("p%d op %d: recipient %d of %d gets key %x, the sender has %x", c.Set, i, at, len(cur.recip), g.B()[:s.Kem], cur.key)
		}
		decs++
		return p.intact()
	}
	for i, op := range c.Ops {
		switch op.Op {
		case "enc":
			var recip []int
			var pubs []*sidh.PublicKey
			var pks [][]byte
			for _, r := range op.Recip {
				if j := len(recip); j < n {
					p := pairs[r%len(pairs)]
					if j < len(boxes) {
						var err error
						if p, err = boxes[j].use(c.Set, c.Box, i+j, p); err != nil {
							return err
						}
					}
					recip = append(recip, r%len(pairs))
					pubs = append(pubs, p.pub)
					pks = append(pks, pairs[r%len(pairs)].pk)
				}
			}
			if op.Aim != nil {
				op.M = RawBlob(op.Aim.find(s.Bits[0], s.Msg, c.Seed, func(m []byte) *big.Int {
					return sr.LE(maskScalar(s, 0, sr.Shake256(s.Bytes[0], []byte{1}, m)))
				}))
				x.Label("chosen ephemeral scalar")
			}
			r := GoodRNG(c.Seed + uint64(i))
			r.Prefix, r.Chunks = []Blob{op.M}, c.Chunks
			src.r = r.New()
			g := NewGuard(s.Kem+op.X, i)
			if err := m.Encapsulate(g.BCap(), pubs); err != nil {
				return Errf("op %d: Encapsulate: %v", i, err)
			}
			if err := g.Check(s.Kem); err != nil {
				return Errf("op %d: secret: %v", i, err)
			}
			cur = &multiModel{recip: recip, key: append([]byte{}, g.B()[:s.Kem]...), ct0: append([]byte{}, multiCt0(&m)[:s.PkLen()]...)}
			for j := range recip {
				cur.cts = append(cur.cts, append([]byte{}, multiCt(&m, j)[:s.Msg]...))
				if err := pairs[recip[j]].intact(); err != nil {
					return Errf("op %d: %v", i, err)
				}
				if !bytes.Equal(sidhPub(pubs[j]), pks[j]) {
					return Errf("op %d: Encapsulate changed public key %d", i, j)
				}
				k := 0
				if j > 400 {
					k = j - 400
				}
				for ; k < j; k++ {
					if (recip[k] == recip[j]) != bytes.Equal(cur.cts[k], cur.cts[j]) && !bytes.Equal(pks[j], pks[k]) {
						return Errf("op %d: ciphertexts of recipients %d and %d", i, k, j)
					}
				}
			}
			if len(recip) > most {
				most = len(recip)
			}
			msg := op.M.Bytes()
			if !past[string(msg)] {
				for k := range past {
					if past[k] && k == string(cur.key) {
						return Errf("op %d: key repeats", i)
					}
				}
			}
			past[string(msg)] = true
			if k := sr.Shake256(s.Kem, []byte{3}, msg); !bytes.Equal(k, cur.key) {
				return Errf("p%d op %d: message %x gives key %x, SHAKE256(3 || m) is %x", c.Set, i, msg, cur.key, k)
			}
			if op.Spec {
				ct0, cts, _ := multiExpect(s, msg, pks)
				if !bytes.Equal(ct0, cur.ct0) {
					return Errf("p%d op %d: ephemeral key for message %x is %s, by the definition %s", c.Set, i, msg, Short(cur.ct0), Short(ct0))
				}
				for j := range cts {
					if !bytes.Equal(cts[j], cur.cts[j]) {
						return Errf("p%d op %d: ciphertext of recipient %d of %d for message %x is %x, by the definition %x", c.Set, i, j, len(cts), msg, cur.cts[j], cts[j])
					}
				}
			}
		case "dec":
			if cur == nil || len(cur.recip) == 0 {
				continue
			}
			if err := dec(i, op.N%len(cur.recip), op.X, op.Alias); err != nil {
				return err
			}
		case "all":
			if cur == nil {
				continue
			}
			// last to first
			for j := len(cur.recip) - 1; j >= 0; j-- {
				if err := dec(i, j, 0, false); err != nil {
					return err
				}
			}
		case "baddec":
			if cur == nil || len(cur.recip) == 0 {
				continue
			}
			p := pairs[cur.recip[0]]
			out := make([]byte, s.Kem)
			ct := append([]byte{}, cur.cts[0]...)
			ct[(op.N+i)%len(ct)] ^= 4
			if err := m.Decapsulate(out, p.prv, p.pub, ct); err == nil && !bytes.Equal(out, sr.Shake256(s.Kem, []byte{3}, p.S)) {
				return Errf("op %d: a modified ciphertext isn't rejected with the secret of the key", i)
			}
		case "single":
			// the single-recipient KEM inside the object
			p := pairs[op.N%len(pairs)]
			var cts, keys, got [2][]byte
			for j, k := range []kemAPI{&m.KEM, nil} {
				r := GoodRNG(c.Seed + uint64(i))
				r.Prefix = []Blob{op.M}
				src.r = r.New()
				if j == 1 {
					k = newKem("sidh", 0, c.Set, src)
				}
				cts[j], keys[j], got[j] = make([]byte, s.PkLen()+s.Msg), make([]byte, s.Kem), make([]byte, s.Kem)
				if err := k.Encapsulate(cts[j], keys[j], p.pub); err != nil {
					return Errf("op %d: Encapsulate: %v", i, err)
				}
				if err := k.Decapsulate(got[j], p.prv, p.pub, cts[j]); err != nil {
					return Errf("op %d: Decapsulate: %v", i, err)
				}
			}
			if !bytes.Equal(cts[0], cts[1]) || !bytes.Equal(keys[0], keys[1]) || !bytes.Equal(got[0], keys[0]) {
				return Errf("p%d op %d: the KEM inside the multi-recipient KEM gives ciphertext %s, keys %x and %x, another one %s, %x", c.Set, i, Short(cts[0]), keys[0], got[0], Short(cts[1]), keys[1])
			}
			x.Label("single-recipient KEM inside")
		case "reset":
			m.Reset()
		case "fail":
			f := GoodRNG(3)
			f.FailAt = op.N % s.Msg
			src.r = f.New()
			g := NewGuard(s.Kem, i)
			var pubs []*sidh.PublicKey
			if n > 0 {
				pubs = append(pubs, pairs[0].pub)
			}
			if err := m.Encapsulate(g.BCap(), pubs); err == nil {
				return Errf("op %d: Encapsulate succeeded although the RNG failed", i)
			}
			if err := g.Check(0); err != nil {
				return Errf("op %d: failed Encapsulate wrote a key", i)
			}
			cur = nil
		case "alloc":
			n = op.N
			cur = nil
			if op.X > 0 {
				m.Allocate(sidhIDs[[]int{434, 503, 751}[op.X]], uint(n), src)
			}
			m.Allocate(sidhIDs[c.Set], uint(n), src)
		}
	}
	x.Label("p%d, up to %d recipients", c.Set, most)
	if decs > 0 && most > 0 {
		x.NT()
	}
	return nil
}

// --- C26 MultiKEM rejects

type c26 struct {
	Set  int    `json:"set"`
	CPU  string `json:"cpu"`
	Keys []sidhKey
	Seed uint64
	M    Blob
	Box  int `json:"box,omitempty"`
	Bad  []c26bad
	Peer *sidhKey `json:"peer,omitempty"` // not a recipient
}
type c26bad struct {
	Kind string `json:"k"`
	At   int    `json:"at"`
	Pos  int    `json:"p"`
	B    Blob   `json:"b"`
}

func genC26(t *rapid.T) c26 {
	c := c26{Set: drawSet(t), CPU: drawCPU(t), Seed: rapid.Uint64().Draw(t, "seed"), Box: drawBox(t)}
	s := sr.ByName(c.Set)
	c.M = DrawBlob(t, "m", s.Msg)
	c.Keys = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sidhKey { return drawSidhKey(t, "key", s, 1) }), 1, 3).Draw(t, "keys")
	if rapid.Bool().Draw(t, "haspeer") {
		k := drawSidhKey(t, "peer", s, 1)
		c.Peer = &k
	}
	c.Bad = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c26bad {
		b := c26bad{Kind: rapid.SampledFrom([]string{"ct", "ct", "ct0", "ct0", "two", "blob", "other", "otherpub", "old", "lift", "swap", "zero", "ct0old", "craft"}).Draw(t, "kind"),
			At: rapid.IntRange(0, 2).Draw(t, "at"), Pos: rapid.IntRange(0, 8*s.PkLen()-1).Draw(t, "pos")}
		if b.Kind == "blob" || b.Kind == "craft" {
			b.B = DrawBlob(t, "b", s.Msg)
		}
		return b
	}), 1, 4).Draw(t, "bad")
	return c
}

func runC26(c c26, x *Ctx) error { return sidhWithCPU(c.CPU, func() error { return runC26in(c, x) }) }

func runC26in(c c26, x *Ctx) error {
	s := sr.ByName(c.Set)
	r := GoodRNG(c.Seed)
	r.Prefix = []Blob{RndFixed(s.Msg, c.Seed), c.M}
	var m mkem.MultiKEM
	if b := c.Seed % 6; b < 3 {
		m.Allocate(sidhIDs[[]int{434, 503, 751}[b]], uint(c.Seed/6%5), r.New())
	}
	m.Allocate(sidhIDs[c.Set], uint(len(c.Keys)), r.New())
	var pairs []*sikePair
	var pubs []*sidh.PublicKey
	for _, k := range c.Keys {
		p, err := mkSike(c.Set, k)
		if err != nil {
			return err
		}
		pairs, pubs = append(pairs, p), append(pubs, p.pub)
	}
	n, pl := len(pairs), s.PkLen()
	key := make([]byte, s.Kem)
	if err := m.Encapsulate(key, pubs); err != nil {
		return Errf("Encapsulate: %v", err)
	}
	old0 := append([]byte{}, multiCt0(&m)[:pl]...)
	var old, cts [][]byte
	for i := range pairs {
		old = append(old, append([]byte{}, multiCt(&m, i)[:s.Msg]...))
	}
	if err := m.Encapsulate(key, pubs); err != nil {
		return Errf("Encapsulate: %v", err)
	}
	ct0 := append([]byte{}, multiCt0(&m)[:pl]...)
	for i := range pairs {
		cts = append(cts, append([]byte{}, multiCt(&m, i)[:s.Msg]...))
	}
	check := func(p *sikePair, pub *sidh.PublicKey, c0, ct []byte, what string) error {
		copy(multiCt0(&m), c0)
		defer func() { copy(multiCt0(&m), ct0) }()
		got := make([]byte, s.Kem)
		err := m.Decapsulate(got, p.prv, pub, append([]byte{}, ct...))
		if err != nil {
			return Errf("p%d: Decapsulate (%s): %v", c.Set, what, err)
		}
		if !bytes.Equal(multiCt0(&m)[:pl], c0) {
			return Errf("p%d: Decapsulate (%s) changes the shared part of the ciphertext", c.Set, what)
		}
		if w := sr.Shake256(s.Kem, []byte{3}, p.S); !bytes.Equal(got, w) {
			if bytes.Equal(got, key) {
				return Errf("p%d: %s is accepted: it gives the key of the honest ciphertext", c.Set, what)
			}
			return Errf("p%d: %s gives %x, implicit rejection prescribes %x", c.Set, what, got, w)
		}
		x.NT()
		return nil
	}
	var box sikeBox
	for _, b := range c.Bad {
		at := b.At % n
		p := pairs[at]
		pub := p.pub
		c0, ct := append([]byte{}, ct0...), append([]byte{}, cts[at]...)
		what := fmt.Sprintf("%s, recipient %d, position %d", b.Kind, at, b.Pos)
		switch b.Kind {
		case "ct":
			ct[b.Pos/8%len(ct)] ^= 1 << uint(b.Pos%8)
		case "ct0":
			c0[b.Pos/8] ^= 1 << uint(b.Pos%8)
		case "two":
			ct[b.Pos/8%len(ct)] ^= 1 << uint(b.Pos%8)
			ct[(b.Pos/8+1+b.Pos%5)%len(ct)] ^= 1 << uint(b.Pos%8)
		case "blob":
			ct = b.B.Bytes()
		case "zero":
			for i := 0; i <= b.Pos%len(ct); i++ {
				ct[len(ct)-1-i] = 0
			}
		case "other": // meant for somebody else
			o := (at + 1) % n
			ct = append([]byte{}, cts[o]...)
		case "otherpub": // public key of somebody else
			q := pairs[(at+1)%n]
			if c.Peer != nil {
				var err error
				if q, err = mkSike(c.Set, *c.Peer); err != nil {
					return err
				}
			}
			pub = q.pub
			if bytes.Equal(q.pk, p.pk) {
				continue
			}
		case "old": // of the encapsulation before
			ct = old[at]
		case "ct0old":
			c0 = old0
		case "lift":
			c0 = lift(s, c0, uint64(b.Pos))
		case "swap":
			copy(c0, ct0[2*s.Len:4*s.Len])
			copy(c0[2*s.Len:], ct0[:2*s.Len])
		case "craft":
			// decrypts to a message whose ephemeral key isn't the one sent
			d := b.B.Bytes()
			for i := range ct {
				ct[i] = cts[at][i] ^ d[i]
			}
		}
		if bytes.Equal(c0, ct0) && bytes.Equal(ct, cts[at]) && pub == p.pub {
			x.Label("unchanged")
			continue
		}
		x.Label("%s p%d", b.Kind, c.Set)
		if c.Box != 0 {
			// after an honest decapsulation through the same objects
			q := pairs[(at+b.Pos)%n]
			h, err := box.load(c.Set, c.Box+b.Pos, q)
			if err != nil {
				return err
			}
			got := make([]byte, s.Kem)
			if err := m.Decapsulate(got, h.prv, h.pub, append([]byte{}, cts[(at+b.Pos)%n]...)); err != nil || !bytes.Equal(got, key) {
				return Errf("p%d: recipient %d gets %x (%v) from the honest ciphertext, want %x", c.Set, (at+b.Pos)%n, got, err, key)
			}
			same := pub == p.pub
			if p, err = box.load(c.Set, c.Box+b.Pos+1, p); err != nil {
				return err
			}
			if same {
				pub = p.pub
			}
		}
		if err := check(p, pub, c0, ct, what); err != nil {
			return err
		}
	}
	for i, p := range pairs {
		got := make([]byte, s.Kem)
		if err := m.Decapsulate(got, p.prv, p.pub, cts[i]); err != nil || !bytes.Equal(got, key) {
			return Errf("p%d: after rejections recipient %d gets %x (%v) from the honest ciphertext, want %x", c.Set, i, got, err, key)
		}
		if err := p.intact(); err != nil {
			return err
		}
	}
	return nil
}

// RndFixed is a pseudo-random blob.
func RndFixed(n int, seed uint64) Blob { return Blob{Kind: "rnd", Len: n, Seed: seed} }

// c26e: every byte.
type c26e struct {
	Set  int    `json:"set"`
	Ct0  bool   `json:"ct0"`
	Bit  int    `json:"bit"`
	Seed uint64 `json:"seed"`
	// this coordinate (counted from 1) is replaced by another encoding
	Lift int `json:"lift,omitempty"`
}
type c26state struct {
	m            mkem.MultiKEM
	p            *sikePair
	ct0, ct, key []byte
}

var c26cache = map[string]*c26state{}

func runC26e(c c26e, x *Ctx) error {
	s := sr.ByName(c.Set)
	id := fmt.Sprint(c.Set, c.Seed)
	e := c26cache[id]
	if e == nil {
		e = &c26state{key: make([]byte, s.Kem)}
		var err error
		if e.p, err = mkSike(c.Set, sidhKey{B: RndFixed(s.Bytes[1], c.Seed), S: RndFixed(s.Msg, c.Seed+1)}); err != nil {
			return err
		}
		e.m.Allocate(sidhIDs[c.Set], 1, GoodRNG(c.Seed).New())
		if err := e.m.Encapsulate(e.key, []*sidh.PublicKey{e.p.pub}); err != nil {
			return Errf("Encapsulate: %v", err)
		}
		e.ct0 = append([]byte{}, multiCt0(&e.m)[:s.PkLen()]...)
		e.ct = append([]byte{}, multiCt(&e.m, 0)[:s.Msg]...)
		c26cache[id] = e
	}
	ct := append([]byte{}, e.ct...)
	copy(multiCt0(&e.m), e.ct0)
	if c.Lift > 0 {
		copy(multiCt0(&e.m), lift(s, e.ct0, uint64(2*c.Lift-1)))
	} else if c.Ct0 {
		multiCt0(&e.m)[c.Bit/8] ^= 1 << uint(c.Bit%8)
	} else {
		ct[c.Bit/8] ^= 1 << uint(c.Bit%8)
	}
	sent := append([]byte{}, multiCt0(&e.m)[:s.PkLen()]...)
	got := make([]byte, s.Kem)
	if err := e.m.Decapsulate(got, e.p.prv, e.p.pub, ct); err != nil {
		return Errf("Decapsulate: %v", err)
	}
	if !bytes.Equal(multiCt0(&e.m)[:s.PkLen()], sent) {
		return Errf("p%d: bit %d flipped (in the shared part: %v): Decapsulate changes the shared part of the ciphertext", c.Set, c.Bit, c.Ct0)
	}
	if w := sr.Shake256(s.Kem, []byte{3}, e.p.S); !bytes.Equal(got, w) {
		return Errf("p%d: bit %d flipped (in the shared part: %v; coordinate not reduced: %d): key %x, honest key %x, implicit rejection prescribes %x", c.Set, c.Bit, c.Ct0, c.Lift, got, e.key, w)
	}
	x.NT()
	return nil
}

// --- C28 PKE over CSIDH

// ctOps reaches the ciphertext type of mkem, which has no exported name.
type ctBox interface {
	parts() (u, v []byte)
	dec(k *mkem.PKE, sk *csidh.PrivateKey) [16]byte
}
type ctOf[T any] struct {
	p    *T
	decf func(*mkem.PKE, *csidh.PrivateKey, *T) [16]byte
}

func (c ctOf[T]) parts() (u, v []byte) {
	r := reflect.ValueOf(c.p).Elem()
	return bytesIn(r.FieldByName("U")), bytesIn(r.FieldByName("V"))
}
func (c ctOf[T]) dec(k *mkem.PKE, sk *csidh.PrivateKey) [16]byte { return c.decf(k, sk, c.p) }

func boxCt[T any](ct T, decf func(*mkem.PKE, *csidh.PrivateKey, *T) [16]byte) ctBox {
	return ctOf[T]{&ct, decf}
}
func encPKE(k *mkem.PKE, pk *csidh.PublicKey, pt *[16]byte) ctBox {
	return boxCt(k.Enc(pk, pt), (*mkem.PKE).Dec)
}

func emptyCt[T any](decf func(*mkem.PKE, *csidh.PrivateKey, *T) [16]byte) ctBox {
	return ctOf[T]{new(T), decf}
}

// newCt makes a ciphertext out of its parts.
func newCt(u, v []byte) ctBox {
	b := emptyCt((*mkem.PKE).Dec)
	pu, pv := b.parts()
	copy(pu[:], u)
	copy(pv[:], v)
	return b
}

type c28op struct {
	Op    string `json:"op"` // enc, menc, dec, hash, alloc
	Obj   int    `json:"obj"`
	Keys  []int  `json:"keys,omitempty"`
	Pt    Blob   `json:"pt"`
	Ct    int    `json:"ct"`
	Bad   Blob   `json:"bad"`
	BadAt int    `json:"badat"`
}
type c28 struct {
	CPU  string `json:"cpu"`
	Seed uint64 `json:"seed"`
	Keys []skSpec
	N    int
	Box  bool `json:"box,omitempty"`
	Ops  []c28op
}

func genC28(maxOps int) func(t *rapid.T) c28 {
	return func(t *rapid.T) c28 {
		c := c28{CPU: drawCPU(t), Seed: rapid.Uint64().Draw(t, "seed"), N: rapid.IntRange(1, 3).Draw(t, "n"), Box: rapid.Bool().Draw(t, "box")}
		c.Keys = []skSpec{drawSk(t, "k0", skKinds), drawSk(t, "k1", skCheap)}
		op := func(k string) c28op {
			o := c28op{Op: k, Obj: rapid.IntRange(0, 2).Draw(t, "obj")}
			switch k {
			case "enc", "menc":
				o.Pt = DrawBlob(t, "pt", 16)
				n := 1
				if k == "menc" {
					n = 3
				}
				o.Keys = rapid.SliceOfN(rapid.IntRange(0, 1), 1, n).Draw(t, "keys")
			case "dec":
				o.Ct = rapid.IntRange(0, 5).Draw(t, "ct")
			case "hash":
				o.Pt = DrawBlob(t, "x", 40)
			}
			return o
		}
		c.Ops = append(c.Ops, op(rapid.SampledFrom([]string{"enc", "menc", "menc"}).Draw(t, "first")))
		n := rapid.IntRange(1, maxOps).Draw(t, "nops")
		for i := 0; i < n; i++ {
			c.Ops = append(c.Ops, op(rapid.SampledFrom([]string{"enc", "menc", "dec", "dec", "dec", "hash", "alloc"}).Draw(t, "op")))
		}
		return c
	}
}

func mkDrbg(seed uint64) *drbg.CtrDrbg {
	d := drbg.NewCtrDrbg()
	b := make([]byte, 48)
	NewPRNG(seed).Fill(b)
	if !d.Init(b, nil) {
		panic(HarnessError{"DRBG init"})
	}
	return d
}

func skBytes(k *csidh.PrivateKey) []byte {
	b := make([]byte, 37)
	if !k.Export(b) {
		panic(HarnessError{"private key export"})
	}
	return b
}

// c28m: very many recipients.
type c28m struct {
	Seed uint64 `json:"seed"`
	N    int    `json:"n"`
}

func runC28m(c c28m, x *Ctx) error {
	rng := mkDrbg(c.Seed)
	var sks [3]*csidh.PrivateKey
	pks := make([]csidh.PublicKey, c.N)
	for i := range sks {
		sks[i] = new(csidh.PrivateKey)
		if err := csidh.GeneratePrivateKey(sks[i], GoodRNG(c.Seed+uint64(i)).New()); err != nil {
			return err
		}
		csidh.GeneratePublicKey(&pks[i], sks[i], GoodRNG(uint64(i)).New())
	}
	who := func(i int) int { return (i*i + i/7) % 3 }
	first := [3]csidh.PublicKey{pks[0], pks[1], pks[2]}
	for i := range pks {
		pks[i] = first[who(i)]
	}
	var many mkem.MultiPKE
	many.Allocate(uint(c.N), rng)
	var one mkem.PKE
	one.Allocate(rng)
	var pt [16]byte
	NewPRNG(c.Seed).Fill(pt[:])
	in := pt
	many.Encrypt(pks, &in)
	if in != pt {
		return Errf("Encrypt changed the message")
	}
	for _, i := range []int{0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 511, 512, c.N - 2, c.N - 1} {
		if i >= c.N {
			continue
		}
		if got := newCt(many.Ct0[:], many.Cts[i][:]).dec(&one, sks[who(i)]); got != pt {
			return Errf("recipient %d of %d decrypts %x, the message was %x", i, c.N, got, pt)
		}
	}
	// the same key gets the same part of one encryption, different keys different ones
	for i := 1; i < c.N; i++ {
		if same := many.Cts[i] == many.Cts[i-1]; same != (who(i) == who(i-1)) {
			return Errf("parts of recipients %d and %d: equal is %v, of equal keys %v", i-1, i, same, !same)
		}
	}
	x.NT()
	return nil
}

func runC28(c c28, x *Ctx) error { return csidhWithCPU(c.CPU, func() error { return runC28in(c, x) }) }

func runC28in(c c28, x *Ctx) error {
	rng := mkDrbg(c.Seed)
	var sks []*csidh.PrivateKey
	var pks []csidh.PublicKey
	for i, k := range c.Keys {
		sk := importSk(k.exps())
		pk := new(csidh.PublicKey)
		csidh.GeneratePublicKey(pk, sk, GoodRNG(uint64(i)).New())
		sks, pks = append(sks, sk), append(pks, *pk)
	}
	type rec struct {
		box  ctBox
		pt   [16]byte
		key  int
		wire []byte
	}
	var recs []rec
	var one [2]mkem.PKE
	var many mkem.MultiPKE
	one[0].Allocate(rng)
	one[1].Allocate(rng)
	many.Allocate(uint(c.N), rng)
	seen := map[string]bool{}
	decs := 0
	// key objects that get new content for every operation
	var skBox csidh.PrivateKey
	var pkBox [3]csidh.PublicKey
	key := func(i int) *csidh.PrivateKey {
		if !c.Box {
			return sks[i]
		}
		if !skBox.Import(skBytes(sks[i])) {
			panic(HarnessError{"private key import"})
		}
		return &skBox
	}
	if c.Box {
		x.Label("key objects reused")
	}
	add := func(i int, b ctBox, pt [16]byte, key int) error {
		u, v := b.parts()
		// the keystream is SHAKE128 of what Diffie-Hellman with the ephemeral key gives
		var ss [64]byte
		if !csidh.DeriveSecret(&ss, pubFrom(u[:]), sks[key], GoodRNG(uint64(i)).New()) {
			return Errf("op %d: the ephemeral key in the ciphertext isn't a valid public key", i)
		}
		ks := sha3.SumSHAKE128(ss[:], 16)
		for j := range ks {
			if v[j] != ks[j]^pt[j] {
				return Errf("op %d: ciphertext of %x for key %d: V is %x, the keystream %x", i, pt, key, v[:16], ks)
			}
		}
		recs = append(recs, rec{b, pt, key, append(append([]byte{}, u[:]...), v[:]...)})
		return nil
	}
	for i, op := range c.Ops {
		k := &one[op.Obj%2]
		if op.Obj == 2 {
			k = &many.PKE
		}
		switch op.Op {
		case "enc":
			var pt [16]byte
			copy(pt[:], op.Pt.Bytes())
			in := pt
			pk := new(csidh.PublicKey)
			if c.Box {
				pk = &pkBox[0]
			}
			if i%2 == 0 {
				*pk = pks[op.Keys[0]]
			} else if !pk.Import(pubBytes(&pks[op.Keys[0]])) {
				return Errf("op %d: public key refused by Import", i)
			}
			b := encPKE(k, pk, &in)
			if in != pt || !bytes.Equal(pubBytes(pk), pubBytes(&pks[op.Keys[0]])) {
				return Errf("op %d: Enc changed its inputs", i)
			}
			u, _ := b.parts()
			if seen[string(u[:])] {
				return Errf("op %d: Enc repeats an ephemeral key", i)
			}
			seen[string(u[:])] = true
			if err := add(i, b, pt, op.Keys[0]); err != nil {
				return err
			}
		case "menc":
			var pt [16]byte
			copy(pt[:], op.Pt.Bytes())
			in := pt
			var ks []csidh.PublicKey
			if c.Box {
				ks = pkBox[:0]
			}
			for _, v := range op.Keys {
				if len(ks) < c.N {
					ks = append(ks, pks[v])
				}
			}
			many.Encrypt(ks, &in)
			if in != pt {
				return Errf("op %d: Encrypt changed the message", i)
			}
			if seen[string(many.Ct0[:])] {
				return Errf("op %d: Encrypt repeats an ephemeral key", i)
			}
			seen[string(many.Ct0[:])] = true
			for j := range ks {
				if !bytes.Equal(pubBytes(&ks[j]), pubBytes(&pks[op.Keys[j]])) {
					return Errf("op %d: Encrypt changed public key %d", i, j)
				}
				if err := add(i, newCt(many.Ct0[:], many.Cts[j][:]), pt, op.Keys[j]); err != nil {
					return Errf("recipient %d: %v", j, err)
				}
			}
			x.Label("multi")
		case "dec":
			r := recs[op.Ct%len(recs)]
			sk := key(r.key)
			got := r.box.dec(k, sk)
			if got != r.pt {
				return Errf("op %d: decryption gives %x, the message was %x", i, got, r.pt)
			}
			u, v := r.box.parts()
			if !bytes.Equal(append(append([]byte{}, u[:]...), v[:]...), r.wire) || !bytes.Equal(skBytes(sk), packExps(c.Keys[r.key].exps())) {
				return Errf("op %d: Dec changed its inputs", i)
			}
			decs++
		case "hash":
			// the hash object is exported; what was fed to it mustn't matter
			k.H.Write(op.Pt.Bytes())
			if op.Pt.Seed%2 == 0 {
				io.ReadFull(k.H, make([]byte, 1+op.Pt.Seed%200))
			}
		case "alloc":
			if op.Obj == 2 {
				many.Allocate(uint(c.N), rng)
			} else {
				k.Allocate(rng)
			}
		}
	}
	// everything decrypts at the end, too
	for i, r := range recs {
		if c.Box || i%2 == int(c.Seed%2) || i == len(recs)-1 {
			k := &one[i%2]
			if c.Box {
				k = &one[c.Seed%2]
			}
			if got := r.box.dec(k, key(r.key)); got != r.pt {
				return Errf("ciphertext %d: decryption gives %x, the message was %x", i, got, r.pt)
			}
			decs++
		}
	}
	if decs > 0 {
		x.NT()
	}
	return nil
}

// c28i: keys which aren't public keys.
type c28i struct {
	Multi bool   `json:"multi"`
	First bool   `json:"first"` // (multi) before or after an honest recipient
	Kind  string `json:"kind"`
	Seed  uint64 `json:"seed"`
	Pt    Blob   `json:"pt"`
}

func genC28i(t *rapid.T) c28i {
	return c28i{rapid.Bool().Draw(t, "multi"), rapid.Bool().Draw(t, "first"), rapid.SampledFrom([]string{"ordinary", "two", "p", "ff", "pminus2"}).Draw(t, "kind"),
		rapid.Uint64().Draw(t, "seed"), DrawBlob(t, "pt", 16)}
}

func runC28i(c c28i, x *Ctx) error {
	b := make([]byte, 64)
	switch c.Kind {
	case "ordinary": // with overwhelming probability
		NewPRNG(c.Seed).Fill(b)
		b[63] &= 0x1f
	case "two":
		b[0] = 2
	case "p":
		b = leWords(cr.P)
	case "ff":
		for i := range b {
			b[i] = 0xff
		}
	case "pminus2":
		b = leWords(new(big.Int).Sub(cr.P, big.NewInt(2)))
	}
	bad := pubFrom(b)
	if csidh.Validate(bad, GoodRNG(c.Seed).New()) {
		return nil
	}
	rng := mkDrbg(c.Seed)
	var pt [16]byte
	copy(pt[:], c.Pt.Bytes())
	var v []byte
	x.NT()
	what := "PKE.Enc"
	cg := Try(func() {
		if !c.Multi {
			var k mkem.PKE
			k.Allocate(rng)
			_, p := encPKE(&k, bad, &pt).parts()
			v = p[:16]
			return
		}
		what = "MultiPKE.Encrypt"
		var k mkem.MultiPKE
		k.Allocate(2, rng)
		sk := importSk(skSpec{"single", c.Seed}.exps())
		good := new(csidh.PublicKey)
		csidh.GeneratePublicKey(good, sk, GoodRNG(1).New())
		keys := []csidh.PublicKey{*good, *bad}
		if c.First {
			keys = []csidh.PublicKey{*bad, *good}
		}
		k.Encrypt(keys, &pt)
		for i := range keys {
			if bytes.Equal(pubBytes(&keys[i]), b) {
				v = append([]byte{}, k.Cts[i][:16]...)
			} else if got := newCt(k.Ct0[:], k.Cts[i][:]).dec(&k.PKE, sk); got != pt {
				v = nil
				panic(Errf("MultiPKE.Encrypt: next to an invalid key, the honest recipient gets %x for %x", got, pt))
			}
		}
	})
	if cg.Panicked {
		if e, ok := cg.Val.(error); ok && v == nil && bytes.HasPrefix([]byte(e.Error()), []byte("MultiPKE")) {
			return e
		}
		x.Label("refused")
		return nil
	}
	ks := sha3.SumSHAKE128(make([]byte, 64), 16)
	plain := make([]byte, 16)
	for i := range plain {
		plain[i] = v[i] ^ ks[i]
	}
	if bytes.Equal(plain, pt[:]) {
		return x.Known("invalid-recipient-key", "%s to a key that isn't a valid public key (%s) encrypts with the constant keystream SHAKE128(0^64)", what, c.Kind)
	}
	if bytes.Equal(v, pt[:]) {
		return Errf("%s to an invalid key (%s) leaves the message in the clear", what, c.Kind)
	}
	x.Label("no constant keystream")
	return nil
}

func init() {
	as := []string{"the formulas of the multi-recipient KEM are those of the package's documentation (domain separators 1, 2, 3) and of ia.cr/2020/1107; unexported ciphertexts of MultiKEM are read and modified through reflection"}
	Register(&Prop{ID: "C25", Assumptions: as, Suites: []*Suite{
		Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "one object used more often than a small counter can tell; every result compared"}, endurC25, runC25),
		Gen(Suite{Name: "histories", Quick: 3200, Thorough: 30000, Rule: "history of encapsulations to lists of recipients (fewer than allocated, repeated keys, none), decapsulations in any order, resets, failures, reallocation, with at least one decapsulation; one in four encapsulations compared in full with the formulas"}, genC25(3, 5), runC25),
		Gen(Suite{Name: "histories-noasm", Config: "noasm", Quick: 200, Thorough: 1000, Rule: "as histories, pure Go build"}, genC25(2, 2), runC25),
		Enum(Suite{Name: "aimed", Rule: "encapsulations to two recipients whose ephemeral scalar has two chosen bytes (found by search), compared in full with the formulas"}, func(tier string, emit func(c25)) {
			n := 1
			if tier == "thorough" {
				n = 20
			}
			for i := 0; i < n; i++ {
				for _, set := range []int{434, 503, 751} {
					eachAim(func(a aim) {
						s := sr.ByName(set)
						c := c25{Set: set, N: 2, Seed: seedBase() + uint64(i)}
						for i := 0; i < 2; i++ {
							c.Keys = append(c.Keys, sidhKey{S: RndFixed(s.Msg, c.Seed+uint64(i)), B: RndFixed(s.Bytes[1], c.Seed+uint64(9+i))})
						}
						c.Ops = []c25op{{Op: "enc", Recip: []int{0, 1}, Spec: true, Aim: &a}, {Op: "all"}}
						emit(c)
					})
				}
			}
		}, runC25),
		Enum(Suite{Name: "many-recipients", CaseLimit: 800, Rule: "every case: encapsulation to more recipients than fit into a byte (thorough: two bytes), the last and those around the limits decapsulate"}, func(tier string, emit func(c25)) {
			sizes := map[int]int{434: 259, 503: 300, 751: 257}
			if tier == "thorough" {
				sizes = map[int]int{434: 1030, 503: 65540, 751: 513}
			}
			for _, set := range []int{434, 503, 751} {
				s, n := sr.ByName(set), sizes[set]
				c := c25{Set: set, N: n, Seed: seedBase() + uint64(set)}
				for i := 0; i < 3; i++ {
					c.Keys = append(c.Keys, sidhKey{S: RndFixed(s.Msg, c.Seed+uint64(i)), B: RndFixed(s.Bytes[1], c.Seed+uint64(9+i))})
				}
				var all []int
				for i := 0; i < n; i++ {
					all = append(all, (i*i+i/7)%3)
				}
				c.Ops = []c25op{{Op: "enc", Recip: all, M: RndFixed(s.Msg, c.Seed+5)}}
				for _, at := range []int{0, 1, 2, 3, 44, 127, 128, 255, 256, 257, 258, 299, n - 4, n - 3, n - 2, n - 1} {
					if at < n {
						c.Ops = append(c.Ops, c25op{Op: "dec", N: at})
					}
				}
				emit(c)
			}
		}, runC25),
	}})
	Register(&Prop{ID: "C26", Assumptions: as, Suites: []*Suite{
		Gen(Suite{Name: "tamper", Quick: 3200, Thorough: 30000, Rule: "at least one decapsulation in which the ciphertext, the shared ephemeral key or the recipient's key isn't the honest one"}, genC26, runC26),
		Gen(Suite{Name: "tamper-noasm", Config: "noasm", Quick: 160, Thorough: 1000, Rule: "as tamper, pure Go build"}, genC26, runC26),
		Enum(Suite{Name: "every-byte", Rule: "a bit flip in every byte of every recipient part and of the shared part (thorough: every bit) for three fields"}, func(tier string, emit func(c26e)) {
			sd := seedBase()
			for _, set := range []int{434, 503, 751} {
				s := sr.ByName(set)
				for i := 1; i <= 6; i++ {
					emit(c26e{Set: set, Seed: sd, Lift: i})
				}
				for w, n := range []int{s.Msg, s.PkLen()} {
					for i := 0; i < n; i++ {
						for b := 0; b < 8; b++ {
							if tier == "thorough" || b == int(sd+uint64(5*i))%8 {
								emit(c26e{Set: set, Ct0: w == 1, Bit: 8*i + b, Seed: sd})
							}
						}
					}
				}
			}
		}, runC26e),
	}})
	Register(&Prop{ID: "C28", Suites: []*Suite{
		Enum(Suite{Name: "endurance", CaseLimit: 800, Rule: "one object used more often than a small counter can tell; every result compared"}, endurC28, runC28),
		Gen(Suite{Name: "histories", Quick: 480, Thorough: 6000, Rule: "history over PKE and MultiPKE objects sharing a generator with at least one decryption; every ciphertext compared with SHAKE128 of the Diffie-Hellman value"}, genC28(3), runC28),
		Enum(Suite{Name: "many-recipients", CaseLimit: 800, Rule: "every case: encryption to more recipients than fit into a byte, those around the limit and the last decrypt"}, func(tier string, emit func(c28m)) {
			emit(c28m{seedBase(), 257})
			if tier == "thorough" {
				emit(c28m{seedBase() + 1, 530})
				emit(c28m{seedBase() + 2, 260})
			}
		}, runC28m),
		Gen(Suite{Name: "invalid-keys", Quick: 96, Thorough: 1000, Rule: "every case: encryption to a key that Validate refuses; the keystream must not be a constant"}, genC28i, runC28i),
		Gen(Suite{Name: "histories-noasm", Config: "noasm", Quick: 24, Thorough: 200, Rule: "as histories, pure Go build"}, genC28(1), runC28),
	}})
}
