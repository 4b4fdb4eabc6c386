package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"

	"mkem"

	"github.com/henrydcase/nobs/dh/sidh"
	"pgregory.net/rapid"
	. "verif/core"
	sr "verif/ref/sidhref"
)

// --- C29 secrets do not decide what is executed
//
// In the build "trace" the Go code of the repository reports every block it
// enters and every position of a slice or array it touches. An operation is run
// with two values of what is secret and everything else equal; both runs must
// report the same.

type tracing struct {
	Start func(first uint64, keep int)
	Stop  func() (hash, n uint64)
	Every int
	Marks func() []uint64
	Rec   func() [][2]uint64
	Pos   func(id uint64) string
}

var tracer *tracing

// sameTrace runs f for both secrets and compares what was executed.
func sameTrace(x *Ctx, what string, f func(which int) (run func(), err error)) error {
	if tracer == nil {
		return HarnessError{"not the trace build"}
	}
	return sameTraceIn(tracer, what, f)
}

func sameTraceIn(tracer *tracing, what string, f func(which int) (run func(), err error)) error {
	one := func(i int, from uint64, keep int) (h, n uint64, marks []uint64, rec [][2]uint64, err error) {
		run, err := f(i)
		if err != nil {
			return 0, 0, nil, nil, err
		}
		tracer.Start(from, keep)
		defer tracer.Stop()
		run()
		h, n = tracer.Stop()
		return h, n, tracer.Marks(), tracer.Rec(), nil
	}
	// caches may be filled by the first calls: only what persists counts
	var m0, m1 []uint64
	for try := 0; try < 3; try++ {
		h0, n0, a, _, err := one(0, 0, 0)
		if err != nil {
			return err
		}
		h1, n1, b, _, err := one(1, 0, 0)
		if err != nil {
			return err
		}
		if n0 == 0 {
			return HarnessError{what + ": nothing was traced"}
		}
		if h0 == h1 && n0 == n1 {
			return nil
		}
		m0, m1 = a, b
	}
	// where they part
	i := 0
	for i < len(m0) && i < len(m1) && m0[i] == m1[i] {
		i++
	}
	from := uint64(i * tracer.Every)
	_, _, _, r0, err := one(0, from, tracer.Every+1)
	if err != nil {
		return err
	}
	_, _, _, r1, err := one(1, from, tracer.Every+1)
	if err != nil {
		return err
	}
	k := 0
	for k < len(r0) && k < len(r1) && r0[k] == r1[k] {
		k++
	}
	at := func(r [][2]uint64) string {
		if k >= len(r) {
			return "the end"
		}
		return fmt.Sprintf("%s (%d)", tracer.Pos(r[k][0]), int64(r[k][1]))
	}
	prev := "the start"
	if k > 0 {
		prev = tracer.Pos(r0[k-1][0])
	}
	return Errf("%s: what is executed depends on the secret: step %d, after %s, is %s with one secret and %s with the other", what, from+uint64(k), prev, at(r0), at(r1))
}

// --- SIDH and SIKE

type c29 struct {
	Op   string `json:"op"`
	Set  int    `json:"set"`
	Impl string `json:"impl"`
	Side int    `json:"side"`
	Sike bool   `json:"sike"`
	// the two secrets
	K [2]sidhKey
	M [2]Blob
	// public
	Peer  sidhKey
	Ct    string `json:"ct"` // what is decapsulated
	Seed  uint64
	N     int
	Which int
}

func genC29(ops []string) func(t *rapid.T) c29 {
	return func(t *rapid.T) c29 {
		c := c29{Op: rapid.SampledFrom(ops).Draw(t, "op"), Set: drawSet(t), Impl: rapid.SampledFrom([]string{"sidh", "mkem"}).Draw(t, "impl"), Seed: rapid.Uint64().Draw(t, "seed"),
			Side: rapid.IntRange(0, 1).Draw(t, "side"), Sike: rapid.Bool().Draw(t, "sike"),
			N: rapid.IntRange(1, 3).Draw(t, "n"), Which: rapid.IntRange(0, 2).Draw(t, "which"),
			Ct: rapid.SampledFrom([]string{"mine", "mine", "peer", "c1", "c1", "c0", "s", "s", "cts"}).Draw(t, "ct")}
		s := sr.ByName(c.Set)
		side := c.Side
		switch c.Op {
		case "encaps", "decaps", "menc", "mdec":
			side = 1
		}
		for i := range c.K {
			c.K[i] = drawSidhKey(t, "key", s, side)
			c.M[i] = DrawBlob(t, "msg", s.Msg)
		}
		peer := 1 - side
		if c.Op == "encaps" || c.Op == "decaps" || c.Op == "menc" || c.Op == "mdec" {
			peer = 1
		}
		c.Peer = drawSidhKey(t, "peer", s, peer)
		return c
	}
}

// randomness starting with m
func startingWith(m Blob, seed uint64) io.Reader {
	r := GoodRNG(seed)
	r.Prefix = []Blob{m}
	return r.New()
}

func runC29(c c29, x *Ctx) error {
	s := sr.ByName(c.Set)
	id := sidhIDs[c.Set]
	x.Label("%s/p%d", c.Op, c.Set)
	what := fmt.Sprintf("p%d %s", c.Set, c.Op)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	prvOf := func(v sidh.KeyVariant, side, i int) (*sidh.PrivateKey, error) {
		p := sidh.NewPrivateKey(id, v)
		_, err := c.K[i].fill(s, side, p)
		return p, err
	}
	v := variantOf(c.Side, c.Sike)
	switch c.Op {
	case "genprv":
		x.NT()
		return sameTrace(x, what, func(i int) (func(), error) {
			p := sidh.NewPrivateKey(id, v)
			r := startingWith(c.K[i].B, c.K[i].Seed)
			return func() { must(p.Generate(r)) }, nil
		})
	case "genpub":
		x.NT()
		return sameTrace(x, what, func(i int) (func(), error) {
			p, err := prvOf(v, c.Side, i)
			pub := sidh.NewPublicKey(id, v)
			return func() { p.GeneratePublicKey(pub) }, err
		})
	case "expimp":
		x.NT()
		return sameTrace(x, what, func(i int) (func(), error) {
			p, err := prvOf(v, c.Side, i)
			q := sidh.NewPrivateKey(id, v)
			b := make([]byte, p.Size())
			return func() { p.Export(b); must(q.Import(b)) }, err
		})
	case "derive":
		x.NT()
		pv := variantOf(1-c.Side, c.Sike)
		pp := sidh.NewPrivateKey(id, pv)
		if _, err := c.Peer.fill(s, 1-c.Side, pp); err != nil {
			return err
		}
		pub := sidh.NewPublicKey(id, pv)
		pp.GeneratePublicKey(pub)
		return sameTrace(x, what, func(i int) (func(), error) {
			p, err := prvOf(v, c.Side, i)
			out := make([]byte, p.SharedSecretSize())
			return func() { p.DeriveSecret(out, pub) }, err
		})
	}
	peer, err := mkSike(c.Set, c.Peer)
	if err != nil {
		return err
	}
	// ciphertext for pub with message m
	what = c.Impl + " " + what
	switch c.Op {
	case "encaps":
		x.NT()
		return sameTrace(x, what, func(i int) (func(), error) {
			k := newKem(c.Impl, c.Which, c.Set, startingWith(c.M[i], c.Seed))
			ct, ss := make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize())
			return func() { must(k.Encapsulate(ct, ss, peer.pub)) }, nil
		})
	case "decaps":
		x.Label("decaps of %s", c.Ct)
		x.NT()
		k0 := c.K[0]
		if c.Ct == "s" { // only S differs
			k0.Gen = false
		}
		mine, err := mkSike(c.Set, k0)
		if err != nil {
			return err
		}
		enc := func(pub *sidh.PublicKey, m Blob) ([]byte, []byte) {
			k := newKem(c.Impl, 0, c.Set, startingWith(m, c.Seed))
			ct, ss := make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize())
			must(k.Encapsulate(ct, ss, pub))
			return ct, ss
		}
		ct, good := enc(mine.pub, c.M[0])
		cts := [2][]byte{ct, append([]byte{}, ct...)}
		keys := [2]*sikePair{mine, mine}
		accept := [2]bool{true, true}
		switch c.Ct {
		case "mine": // the right and another private key
			if keys[1], err = mkSike(c.Set, c.K[1]); err != nil {
				return err
			}
			accept[1] = bytes.Equal(keys[1].pk, mine.pk)
		case "peer": // two private keys and a ciphertext for neither
			if keys[1], err = mkSike(c.Set, c.K[1]); err != nil {
				return err
			}
			ct, _ = enc(peer.pub, c.M[0])
			cts = [2][]byte{ct, ct}
			accept[0], accept[1] = bytes.Equal(mine.pk, peer.pk), bytes.Equal(keys[1].pk, peer.pk)
		case "c1":
			cts[1][s.PkLen()+int(c.Seed%uint64(s.Msg))] ^= 1 << (c.Seed >> 32 % 8)
			accept[1] = false
		case "c0": // ephemeral key of another encapsulation
			o, _ := enc(mine.pub, c.M[1])
			accept[1] = bytes.Equal(o, ct)
			copy(cts[1][:s.PkLen()], o[:s.PkLen()])
		case "cts": // two valid ciphertexts
			cts[1], _ = enc(mine.pub, c.M[1])
		case "s":
			k1 := k0
			k1.S = c.K[1].S
			if keys[1], err = mkSike(c.Set, k1); err != nil {
				return err
			}
			if c.Which > 0 { // rejected by both
				cts[0][len(ct)-1] ^= 1
				cts[1] = cts[0]
				accept = [2]bool{false, false}
			}
		}
		x.Label("accepted %v", accept)
		_ = good
		return sameTrace(x, what+" of "+c.Ct, func(i int) (func(), error) {
			k := newKem(c.Impl, c.Which, c.Set, startingWith(c.M[0], c.Seed))
			ss := make([]byte, k.SharedSecretSize())
			return func() { must(k.Decapsulate(ss, keys[i].prv, mine.pub, cts[i])) }, nil
		})
	case "menc", "mdec":
		x.NT()
		mine, err := mkSike(c.Set, c.K[0])
		if err != nil {
			return err
		}
		pubs := make([]*sidh.PublicKey, c.N)
		for i := range pubs {
			pubs[i] = peer.pub
		}
		pubs[c.Which%c.N] = mine.pub
		alloc := func(i int) *mkem.MultiKEM {
			m := new(mkem.MultiKEM)
			m.Allocate(id, uint(c.N), startingWith(c.M[i], c.Seed))
			return m
		}
		if c.Op == "menc" {
			return sameTrace(x, what, func(i int) (func(), error) {
				m := alloc(i)
				ss := make([]byte, m.SharedSecretSize())
				return func() { must(m.Encapsulate(ss, pubs)) }, nil
			})
		}
		x.Label("mdec of %s", c.Ct)
		keys := [2]*sikePair{mine, mine}
		switch c.Ct {
		case "mine", "peer":
			if keys[1], err = mkSike(c.Set, c.K[1]); err != nil {
				return err
			}
		case "s":
			k1 := c.K[0]
			if k1.Gen {
				k1.Gen = false
				if keys[0], err = mkSike(c.Set, k1); err != nil {
					return err
				}
				mine = keys[0]
				pubs[c.Which%c.N] = mine.pub
			}
			k1.S = c.K[1].S
			if keys[1], err = mkSike(c.Set, k1); err != nil {
				return err
			}
		}
		return sameTrace(x, what+" of "+c.Ct, func(i int) (func(), error) {
			m := alloc(0)
			if c.Ct == "cts" {
				m = alloc(i)
			}
			ss := make([]byte, m.SharedSecretSize())
			if err := m.Encapsulate(ss, pubs); err != nil {
				return nil, err
			}
			ct := append([]byte{}, multiCt(m, c.Which%c.N)[:m.SharedSecretSize()]...)
			if i == 1 && c.Ct == "c1" || c.Ct == "s" && c.Seed&1 == 0 {
				ct[c.Seed%uint64(len(ct))] ^= 1 << (c.Seed >> 32 % 8)
			}
			if i == 1 && c.Ct == "c0" { // the ephemeral key of another encapsulation
				o := alloc(1)
				if err := o.Encapsulate(ss, pubs); err != nil {
					return nil, err
				}
				copy(multiCt0(m), multiCt0(o))
			}
			return func() { must(m.Decapsulate(ss, keys[i].prv, mine.pub, ct)) }, nil
		})
	}
	return HarnessError{c.Op}
}

// --- hashes

type c29h struct {
	Kind   string `json:"kind"`
	Msg    [2]Blob
	Splits []int
	Out    []int
	FN, CS Blob
}

func genC29h(t *rapid.T) c29h {
	c := c29h{Kind: rapid.SampledFrom(append(append([]string{}, sha3Kinds...), "sm3")).Draw(t, "kind")}
	n := rapid.IntRange(0, 700).Draw(t, "len")
	c.Msg = [2]Blob{DrawBlob(t, "m0", n), DrawBlob(t, "m1", n)}
	c.Splits = rapid.SliceOfN(rapid.IntRange(0, 300), 0, 6).Draw(t, "splits")
	c.Out = rapid.SliceOfN(rapid.IntRange(0, 300), 1, 4).Draw(t, "out")
	c.FN, c.CS = DrawBlob(t, "fn", rapid.IntRange(0, 20).Draw(t, "fnlen")), DrawBlob(t, "cs", rapid.IntRange(0, 40).Draw(t, "cslen"))
	return c
}

func runC29h(c c29h, x *Ctx) error { return runC29hw(c, x, sameTrace) }

func runC29hw(c c29h, x *Ctx, same func(*Ctx, string, func(int) (func(), error)) error) error {
	x.Label("%s", c.Kind)
	if !bytes.Equal(c.Msg[0].Bytes(), c.Msg[1].Bytes()) {
		x.NT()
	}
	return same(x, c.Kind, func(i int) (func(), error) {
		msg := c.Msg[i].Bytes()
		var h io.Writer
		var xof io.Reader
		var sum func([]byte) []byte
		if hashSize[c.Kind] != 0 {
			f := newFixed(c.Kind)
			h, sum = f, f.Sum
		} else {
			f := newXOF(c.Kind, c.FN.Bytes(), c.CS.Bytes())
			h, xof = f, f
		}
		out := make([]byte, 300)
		return func() {
			m := msg
			for _, n := range c.Splits {
				if n > len(m) {
					n = len(m)
				}
				h.Write(m[:n])
				m = m[n:]
			}
			h.Write(m)
			if sum != nil {
				sum(nil)
				return
			}
			for _, n := range c.Out {
				xof.Read(out[:n])
			}
		}, nil
	})
}

// --- field arithmetic of CSIDH, as far as it is declared to be constant time

type c29f struct {
	Op   string `json:"op"`
	X, Y [2]Blob
	E    Blob
	C    [2]uint8
}

func genC29f(t *rapid.T) c29f {
	c := c29f{Op: rapid.SampledFrom([]string{"mul", "add", "sub", "mul512", "mul576", "cswap", "exp512", "exp64", "iszero", "equal", "equal", "nonres"}).Draw(t, "op"), E: DrawBlob(t, "e", 64)}
	for i := range c.X {
		c.X[i], c.Y[i] = DrawBlob(t, "x", 64), DrawBlob(t, "y", 64)
		c.C[i] = uint8(rapid.IntRange(0, 1).Draw(t, "c"))
	}
	if rapid.IntRange(0, 2).Draw(t, "same") == 0 {
		c.Y[0] = c.X[0]
	}
	return c
}

func limbs8(b []byte) (r [8]uint64) {
	for i := range r {
		r[i] = binary.LittleEndian.Uint64(b[8*i:])
	}
	return r
}

func runC29f(c c29f, x *Ctx) error { return runC29fw(c, x, sameTrace) }

func runC29fw(c c29f, x *Ctx, same func(*Ctx, string, func(int) (func(), error)) error) error {
	x.Label("%s", c.Op)
	x.NT()
	return same(x, "csidh "+c.Op, func(i int) (func(), error) {
		o := csidhFp
		var r [8]uint64
		r9 := new([9]uint64)
		a, b, e := limbs8(c.X[i].Bytes()), limbs8(c.Y[i].Bytes()), limbs8(c.E.Bytes())
		if c.Op != "equal" && c.Op != "cswap" { // operands of arithmetic are reduced
			a[7] >>= 2
			b[7] >>= 2
		}
		return func() {
			switch c.Op {
			case "mul":
				o.mul(&r, &a, &b)
			case "add":
				o.add(&r, &a, &b)
			case "sub":
				o.sub(&r, &a, &b)
			case "mul512":
				o.mul512(&r, &a, b[0])
			case "mul576":
				o.mul576(r9, &a, b[0])
			case "cswap":
				o.cswap(&a, &b, c.C[i])
			case "exp512":
				o.exp512(&r, &a, &e)
			case "exp64":
				o.exp64(&r, &a, e[0])
			case "iszero":
				o.isZero(&a)
			case "equal":
				o.equal(&a, &b)
			case "nonres":
				o.nonRes(&a)
			}
		}, nil
	})
}

func init() {
	Register(&Prop{ID: "C29", Suites: append([]*Suite{
		Gen(Suite{Name: "sidh", Config: "trace", Quick: 320, Thorough: 6000, CaseLimit: 300, Rule: "pairs of private keys (or random streams) for key generation, public keys and shared secrets; both executions must report the same blocks and positions"}, genC29([]string{"genprv", "genpub", "genpub", "derive", "derive", "expimp"}), runC29),
		Gen(Suite{Name: "kem", Config: "trace", Quick: 560, Thorough: 6000, CaseLimit: 300, Rule: "pairs of messages, private keys, S values, or accepted and rejected ciphertexts"}, genC29([]string{"encaps", "decaps", "decaps", "menc", "mdec", "mdec"}), runC29),
		Gen(Suite{Name: "hash", Config: "trace", Quick: 3000, Thorough: 60000, Rule: "pairs of messages of equal length, split equally; non-trivial if they differ"}, genC29h, runC29h),
		Gen(Suite{Name: "csidh-field", Config: "trace", Hook: "hk_csidhfp", Quick: 3000, Thorough: 60000, Rule: "pairs of operands"}, genC29f, runC29f),
	}, machineSuites()...), Assumptions: []string{
		"what is observed of whole operations are the blocks of Go source entered and the positions of slices and arrays touched in the portable build, and of field arithmetic, hashes and key encodings also the addresses of the instructions executed in the ordinary build on this processor; memory addresses used by assembly and the standard library are outside",
	}})
}
