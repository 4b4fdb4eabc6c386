package checks

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"mkem"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/hash/sha3"
	"pgregory.net/rapid"
	. "verif/core"
	sr "verif/ref/sidhref"
)

// An xop is a self-contained piece of work with some part of the library. Its
// transcript (all outputs in order) depends on nothing but the xop; C30 runs
// several interleaved, C31 on different builds, C32 in guarded memory.
type xop struct {
	Kind   string    `json:"kind"`
	Sub    string    `json:"sub,omitempty"`
	Set    int       `json:"set,omitempty"`
	Seed   uint64    `json:"seed"`
	A      Blob      `json:"a"`
	B      Blob      `json:"b"`
	C      Blob      `json:"c"`
	N      []int     `json:"n,omitempty"`
	Chunks []int     `json:"chunks,omitempty"`
	Sk     []skSpec  `json:"sk,omitempty"`
	K      []sidhKey `json:"k,omitempty"`
	Shared bool      `json:"shared,omitempty"`
}

// xenv is what an xop sees of the world.
type xenv struct {
	step   func() // between calls and while the library waits for randomness
	shared *sharedKeys
	aesni  bool
	mem    *guarded
	err    error
	log    []string
	yields int
}

func (e *xenv) tick() {
	e.yields++
	if e.step != nil {
		e.step()
	}
}
func (e *xenv) rng(seed uint64, chunks []int, pre ...Blob) *Reader {
	r := GoodRNG(seed)
	r.Chunks, r.Prefix = chunks, pre
	x := r.New()
	x.Hook = e.tick
	return x
}
func (e *xenv) in(b []byte) []byte {
	if e.mem != nil {
		return e.mem.in(b)
	}
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// out is a buffer of n bytes, or of more if the callee is to use the first n.
func (e *xenv) out(n int, exact bool) []byte {
	if e.mem != nil {
		return e.mem.out(n, exact)
	}
	return make([]byte, n)
}

// done ends a call: the outputs are recorded.
func (e *xenv) done(outs ...[]byte) {
	for _, o := range outs {
		e.log = append(e.log, hex.EncodeToString(o))
	}
	if e.mem != nil {
		if err := e.mem.check(); err != nil && e.err == nil {
			e.err = Errf("after output %d: %v", len(e.log), err)
		}
	}
	e.tick()
}
func (e *xenv) note(f string, a ...any) {
	e.log = append(e.log, fmt.Sprintf(f, a...))
	e.done()
}

// guarded hands out memory with canaries or in front of inaccessible pages,
// and overwrites it as soon as the call it was for is over.
type guarded struct {
	page  bool
	off   int
	extra int
	seed  uint64
	k     int
	ins   []Frozen
	gIn   []*Guard
	gOut  []*Guard
	nOut  []int
	pages []*PageBuf
	total int
}

func (g *guarded) in(b []byte) []byte {
	if b == nil {
		return nil
	}
	g.k++
	g.total++
	var p []byte
	if g.page && g.k%2 == 0 {
		pb := PageOf(b)
		g.pages = append(g.pages, pb)
		p = pb.B
	} else {
		gd := NewGuard(len(b), g.off+g.k)
		p = gd.BCap()
		copy(p, b)
		g.gIn = append(g.gIn, gd)
	}
	g.ins = append(g.ins, Freeze(fmt.Sprintf("input %d (%d bytes)", g.k, len(b)), p))
	return p
}
func (g *guarded) out(n int, exact bool) []byte {
	g.k++
	g.total++
	x := 0
	if !exact {
		x = g.extra * (g.k % 3)
	}
	if g.page && x == 0 && g.k%2 == 0 {
		pb := NewPage(n)
		g.pages = append(g.pages, pb)
		return pb.B
	}
	gd := NewGuard(n+x, g.off+g.k)
	g.gOut = append(g.gOut, gd)
	g.nOut = append(g.nOut, n)
	return gd.BCap()
}
func (g *guarded) check() error {
	var err error
	for _, f := range g.ins {
		if e := f.Check(); e != nil && err == nil {
			err = e
		}
	}
	for _, gd := range g.gIn {
		if e := gd.Check(len(gd.B())); e != nil && err == nil {
			err = Errf("next to an input: %v", e)
		}
	}
	for i, gd := range g.gOut {
		if e := gd.Check(g.nOut[i]); e != nil && err == nil {
			err = Errf("output: %v", e)
		}
	}
	// the caller reuses its memory
	p := NewPRNG(g.seed + uint64(g.k))
	for _, gd := range append(g.gIn, g.gOut...) {
		p.Fill(gd.B())
	}
	for _, pb := range g.pages {
		p.Fill(pb.B)
	}
	g.ins, g.gIn, g.gOut, g.nOut = nil, nil, nil, nil
	if len(g.pages) > 24 {
		// a retained reference to unmapped memory would crash
		for _, pb := range g.pages[:12] {
			pb.Free()
		}
		g.pages = append([]*PageBuf{}, g.pages[12:]...)
	}
	return err
}
func (g *guarded) free() {
	for _, pb := range g.pages {
		pb.Free()
	}
	g.pages = nil
}

// sharedKeys are SIDH keys several operations use at the same time.
type sharedKeys struct {
	mu sync.Mutex
	m  map[string]*sikePair
}

func (e *xenv) pair(o xop, i int) *sikePair {
	mk := func() *sikePair {
		p, err := mkSike(o.Set, o.K[i])
		if err != nil {
			panic(HarnessError{err.Error()})
		}
		return p
	}
	if !o.Shared || e.shared == nil {
		return mk()
	}
	b, _ := json.Marshal(o.K[i])
	id := fmt.Sprint(o.Set) + string(b)
	e.shared.mu.Lock()
	defer e.shared.mu.Unlock()
	if p := e.shared.m[id]; p != nil {
		return p
	}
	p := mk()
	e.shared.m[id] = p
	return p
}

func parts(b []byte, n []int) (r [][]byte) {
	for _, k := range n {
		if k > len(b) {
			k = len(b)
		}
		r = append(r, b[:k])
		b = b[k:]
	}
	return append(r, b)
}

// exec runs the operation and returns its transcript.
func (o xop) exec(e *xenv) []string {
	e.log = nil
	c := Try(func() { o.body(e) })
	if c.Panicked {
		if h, ok := c.Val.(HarnessError); ok {
			panic(h)
		}
		e.log = append(e.log, "panic")
	}
	return e.log
}

func (o xop) body(e *xenv) {
	switch o.Kind {
	case "hash":
		h := newFixed(o.Sub)
		for round := 0; round < 2; round++ {
			for _, p := range parts(o.A.Bytes(), o.N) {
				n, err := h.Write(e.in(p))
				e.note("%d %v", n, err)
				if len(p)%3 == 1 {
					e.done(h.Sum(nil))
				}
			}
			if o.Sub == "sm3" {
				e.done(h.Sum(nil))
			} else {
				buf := e.out(5+h.Size(), true)
				copy(buf, "abcde")
				e.done(h.Sum(buf[:5]))
			}
			h.Reset()
		}
	case "hash-long": // N[0] MiB and N[1] bytes in writes of 1 MiB
		h := newFixed(o.Sub)
		b := make([]byte, 1<<20)
		NewPRNG(o.Seed).Fill(b)
		for i := 0; i < o.N[0]; i++ {
			h.Write(b)
		}
		h.Write(b[:o.N[1]])
		e.done(h.Sum(nil))
	case "xof-long": // N[0] MiB in, as much and N[1] bytes more out
		h := newXOF(o.Sub, nil, []byte("long"))
		b := make([]byte, 1<<20)
		NewPRNG(o.Seed).Fill(b)
		for i := 0; i < o.N[0]; i++ {
			h.Write(b)
		}
		for i := 0; i < o.N[0]; i++ {
			h.Read(b)
		}
		e.done(b)
		h.Read(b[:o.N[1]])
		e.done(b)
	case "xof":
		fn, cs := e.in(o.B.Bytes()), e.in(o.C.Bytes())
		h := newXOF(o.Sub, fn, cs)
		e.done()
		for round := 0; round < 2; round++ {
			for _, p := range parts(o.A.Bytes(), o.N) {
				n, err := h.Write(e.in(p))
				e.note("%d %v", n, err)
			}
			cl := h.Clone()
			for _, n := range append(o.N, 17) {
				b := e.out(n%500, true)
				k, err := h.Read(b)
				e.log = append(e.log, fmt.Sprint(k, err))
				e.done(b)
			}
			b := e.out(200, true)
			cl.Read(b)
			e.done(b)
			b = e.out(64, true)
			h.Read(b)
			e.done(b)
			h.Reset()
		}
		b := e.out(33, true)
		if o.Sub == "shake128" {
			sha3.ShakeSum128(b, e.in(o.A.Bytes()))
			e.done(b)
		} else {
			sha3.ShakeSum256(b, e.in(o.A.Bytes()))
			e.done(b)
		}
	case "drbg":
		d := newDrbg(e.aesni)
		ok := d.Init(e.in(o.A.Bytes()), e.in(o.B.Bytes()))
		e.note("%v", ok)
		for i, n := range o.N {
			b := e.out(n, true)
			switch i % 3 {
			case 0:
				k, err := d.Read(b)
				e.log = append(e.log, fmt.Sprint(k, err))
			case 1:
				k, err := d.ReadWithAdditionalData(b, e.in(o.C.Bytes()))
				e.log = append(e.log, fmt.Sprint(k, err))
			case 2:
				d.Reseed(e.in(o.A.Bytes()), e.in(o.C.Bytes()))
				e.done()
				b = e.out(n, true)
				k, err := d.Read(b)
				e.log = append(e.log, fmt.Sprint(k, err))
			}
			e.done(b)
		}
	case "csidh":
		ska, skb := new(csidh.PrivateKey), new(csidh.PrivateKey)
		e.note("%v", ska.Import(e.in(packExps(o.Sk[0].exps()))))
		e.note("%v", skb.Import(e.in(packExps(o.Sk[1].exps()))))
		pa, pb := new(csidh.PublicKey), new(csidh.PublicKey)
		csidh.GeneratePublicKey(pa, ska, e.rng(o.Seed, o.Chunks))
		b := e.out(64, true)
		pa.Export(b)
		wire := append([]byte{}, b...)
		e.done(b)
		csidh.GeneratePublicKey(pb, skb, e.rng(o.Seed+1, o.Chunks))
		e.note("%v", pa.Import(e.in(wire)))
		ss := e.out(64, true)
		ok := csidh.DeriveSecret((*[64]byte)(ss), pa, skb, e.rng(o.Seed+2, o.Chunks))
		e.log = append(e.log, fmt.Sprint(ok))
		e.done(ss)
		ss = e.out(64, true)
		ok = csidh.DeriveSecret((*[64]byte)(ss), pb, ska, e.rng(o.Seed+3, o.Chunks))
		e.log = append(e.log, fmt.Sprint(ok))
		e.done(ss)
		b = e.out(37, true)
		ska.Export(b)
		e.done(b)
		// something that needn't be a key
		junk := new(csidh.PublicKey)
		e.note("%v", junk.Import(e.in(fitTo(o.A.Bytes(), 64))))
		e.note("%v", csidh.Validate(junk, e.rng(o.Seed+4, o.Chunks)))
	case "csidh-gen":
		sk := new(csidh.PrivateKey)
		r := e.rng(o.Seed, o.Chunks, o.A)
		err := csidh.GeneratePrivateKey(sk, r)
		b := e.out(37, true)
		sk.Export(b)
		e.log = append(e.log, fmt.Sprint(err, r.N))
		e.done(b)
		junk := new(csidh.PublicKey)
		e.note("%v", junk.Import(e.in(fitTo(o.A.Bytes(), 64))))
		e.note("%v", csidh.Validate(junk, e.rng(o.Seed+4, o.Chunks)))
		b = e.out(64, true)
		junk.Export(b)
		e.done(b)
	case "sidh":
		s := sr.ByName(o.Set)
		prv, pub := [2]*sidh.PrivateKey{}, [2]*sidh.PublicKey{}
		for side := 0; side < 2; side++ {
			v := variantOf(side, o.Sub == "sike")
			prv[side], pub[side] = sidh.NewPrivateKey(sidhIDs[o.Set], v), sidh.NewPublicKey(sidhIDs[o.Set], v)
			if o.K[side].Gen {
				err := prv[side].Generate(e.rng(o.K[side].Seed, o.Chunks, o.K[side].B))
				e.note("%v", err)
			} else {
				var S []byte
				if v == sidh.KeyVariantSike {
					S = o.K[side].S.Bytes()
				}
				e.note("%v", prv[side].Import(e.in(append(S, o.K[side].scalar(s, side)...))))
			}
			b := e.out(prv[side].Size(), true)
			prv[side].Export(b)
			e.done(b)
			prv[side].GeneratePublicKey(pub[side])
			b = e.out(s.PkLen(), false)
			pub[side].Export(b)
			e.done(b[:s.PkLen()])
		}
		for side := 0; side < 2; side++ {
			peer := sidh.NewPublicKey(sidhIDs[o.Set], variantOf(1-side, o.Sub == "sike"))
			e.note("%v", peer.Import(e.in(sidhPub(pub[1-side]))))
			ss := e.out(s.SsLen(), false)
			prv[side].DeriveSecret(ss, peer)
			e.done(ss[:s.SsLen()])
		}
		if o.Seed%2 == 0 {
			// not a key, just field elements
			peer := sidh.NewPublicKey(sidhIDs[o.Set], variantOf(1, o.Sub == "sike"))
			j := make([]byte, s.PkLen())
			NewPRNG(o.Seed).Fill(j)
			e.note("%v", peer.Import(e.in(j)))
			b := e.out(s.PkLen(), false)
			peer.Export(b)
			e.done(b[:s.PkLen()])
			ss := e.out(s.SsLen(), false)
			prv[0].DeriveSecret(ss, peer)
			e.done(ss[:s.SsLen()])
		}
	case "kem":
		s := sr.ByName(o.Set)
		p := e.pair(o, 0)
		k := newKem(o.Sub, int(o.Seed%2), o.Set, e.rng(o.Seed, o.Chunks, o.A))
		for i := 0; i < 2; i++ {
			ct, ss := e.out(s.CtLen(), false), e.out(s.Kem, false)
			err := k.Encapsulate(ct, ss, p.pub)
			wire := append([]byte{}, ct[:s.CtLen()]...)
			e.log = append(e.log, fmt.Sprint(err))
			e.done(wire, ss[:s.Kem])
			for _, flip := range []int{-1, int(o.Seed % uint64(8*s.CtLen()))} {
				if flip >= 0 {
					if i == 0 {
						continue
					}
					wire[flip/8] ^= 1 << uint(flip%8)
				}
				ss = e.out(s.Kem, false)
				err = k.Decapsulate(ss, p.prv, p.pub, e.in(wire))
				e.log = append(e.log, fmt.Sprint(err))
				e.done(ss[:s.Kem])
			}
		}
	case "multi":
		s := sr.ByName(o.Set)
		var m mkem.MultiKEM
		m.Allocate(sidhIDs[o.Set], uint(len(o.K)), e.rng(o.Seed, o.Chunks, o.A))
		var pubs []*sidh.PublicKey
		var pairs []*sikePair
		for i := range o.K {
			p := e.pair(o, i)
			pairs, pubs = append(pairs, p), append(pubs, p.pub)
		}
		ss := e.out(s.Kem, false)
		err := m.Encapsulate(ss, pubs)
		e.log = append(e.log, fmt.Sprint(err))
		e.done(ss[:s.Kem], multiCt0(&m)[:s.PkLen()])
		for i, p := range pairs {
			ct := append([]byte{}, multiCt(&m, i)[:s.Msg]...)
			e.done(ct)
			ss := e.out(s.Kem, false)
			err := m.Decapsulate(ss, p.prv, p.pub, e.in(ct))
			e.log = append(e.log, fmt.Sprint(err))
			e.done(ss[:s.Kem])
		}
	case "pke":
		var k mkem.PKE
		d := newDrbg(e.aesni)
		seed := make([]byte, 48)
		NewPRNG(o.Seed).Fill(seed)
		d.Init(e.in(seed), nil)
		e.done()
		k.Allocate(d)
		sk := importSk(o.Sk[0].exps())
		pk := new(csidh.PublicKey)
		csidh.GeneratePublicKey(pk, sk, e.rng(o.Seed, o.Chunks))
		e.done()
		pt := (*[16]byte)(e.in(fitTo(o.A.Bytes(), 16)))
		ct := encPKE(&k, pk, pt)
		u, v := ct.parts()
		e.done(u[:], v[:16])
		got := ct.dec(&k, sk)
		e.done(got[:])
	default:
		panic(HarnessError{o.Kind})
	}
}

func fitTo(b []byte, n int) []byte {
	r := make([]byte, n)
	copy(r, b)
	return r
}

var xopLight = []string{"hash", "hash", "xof", "xof", "drbg", "drbg"}

func drawXop(t *rapid.T, kinds []string, sks []string) xop {
	o := xop{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Seed: rapid.Uint64().Draw(t, "seed")}
	ln := func(l string, max int) []int { return rapid.SliceOfN(rapid.IntRange(0, max), 0, 4).Draw(t, l) }
	switch o.Kind {
	case "hash":
		o.Sub = rapid.SampledFrom(fixedKinds).Draw(t, "sub")
		o.A = DrawBlob(t, "a", drawLen(t, "alen", hashRate[o.Sub], 700))
		o.N = ln("n", 200)
	case "xof":
		o.Sub = rapid.SampledFrom(xofKinds).Draw(t, "sub")
		o.A = DrawBlob(t, "a", drawLen(t, "alen", hashRate[o.Sub], 700))
		o.B, o.C = drawCustom(t, "b", hashRate[o.Sub]), drawCustom(t, "c", hashRate[o.Sub])
		o.N = ln("n", 300)
	case "drbg":
		o.A = DrawBlob(t, "a", rapid.IntRange(48, 64).Draw(t, "al"))
		o.B, o.C = DrawBlob(t, "b", rapid.IntRange(0, 48).Draw(t, "bl")), DrawBlob(t, "c", rapid.IntRange(0, 48).Draw(t, "cl"))
		o.N = ln("n", 100)
		o.N = append(o.N, rapid.IntRange(1, 200).Draw(t, "last"))
	case "csidh":
		o.Sk = []skSpec{drawSk(t, "sk0", sks), drawSk(t, "sk1", sks)}
		o.A = DrawBlob(t, "a", 64)
		o.Chunks = DrawChunks(t, "chunks")
	case "csidh-gen":
		o.A = DrawBlob(t, "a", 64)
		o.Chunks = DrawChunks(t, "chunks")
	case "pke":
		o.Sk = []skSpec{drawSk(t, "sk0", sks)}
		o.A = DrawBlob(t, "a", 16)
	case "sidh":
		o.Set = drawSet(t)
		o.Sub = rapid.SampledFrom([]string{"sidh", "sike"}).Draw(t, "sub")
		s := sr.ByName(o.Set)
		o.K = []sidhKey{drawSidhKey(t, "a", s, 0), drawSidhKey(t, "b", s, 1)}
		o.Chunks = DrawChunks(t, "chunks")
	case "kem", "multi":
		o.Set = drawSet(t)
		s := sr.ByName(o.Set)
		o.Sub = rapid.SampledFrom(impls).Draw(t, "impl")
		o.A = DrawBlob(t, "m", s.Msg)
		n := 1
		if o.Kind == "multi" {
			n = rapid.IntRange(0, 3).Draw(t, "recipients")
		}
		for i := 0; i < n; i++ {
			o.K = append(o.K, drawSidhKey(t, "k", s, 1))
		}
		o.Chunks = DrawChunks(t, "chunks")
	}
	return o
}

func bothCPU(kind string, f func() error) error {
	return csidhWithCPU(kind, func() error { return sidhWithCPU(kind, f) })
}

func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("output %d: %s / nothing", i, Short([]byte(a[i])))
		}
		if a[i] != b[i] {
			return fmt.Sprintf("output %d: %.200s / %.200s", i, a[i], b[i])
		}
	}
	return fmt.Sprintf("%d / %d outputs", len(a), len(b))
}

func eqLog(a, b []string) bool { return strings.Join(a, ",") == strings.Join(b, ",") }

// --- C30 objects don't interfere

type c30 struct {
	CPU   string `json:"cpu"`
	Ops   []xop  `json:"ops"`
	Sched []int  `json:"sched,omitempty"`
	Reps  int    `json:"reps"`
}

func genC30(kinds []string, sched bool, min, max int) func(t *rapid.T) c30 {
	return func(t *rapid.T) c30 {
		c := c30{CPU: drawCPU(t), Reps: 1}
		n := rapid.IntRange(min, max).Draw(t, "n")
		// often everybody does the same kind of thing
		ks := kinds
		if rapid.Bool().Draw(t, "same") {
			ks = []string{rapid.SampledFrom(kinds).Draw(t, "kind")}
		}
		sub := ""
		for i := 0; i < n; i++ {
			o := drawXop(t, ks, skCheap)
			o.Shared = rapid.Bool().Draw(t, "shared")
			if i > 0 && (o.Kind == "kem" || o.Kind == "multi") && o.Shared && len(c.Ops[0].K) > 0 && c.Ops[0].Kind != "sidh" && len(o.K) > 0 {
				o.Set, o.K[0] = c.Ops[0].Set, c.Ops[0].K[0]
				c.Ops[0].Shared = true
				s := sr.ByName(o.Set)
				o.A = DrawBlob(t, "m", s.Msg)
				for j := 1; j < len(o.K); j++ {
					o.K[j] = drawSidhKey(t, "k", s, 1)
				}
			}
			if o.Kind == "hash" && sub != "" && rapid.Bool().Draw(t, "samehash") {
				o.Sub = sub
			}
			if o.Kind == "hash" {
				sub = o.Sub
			}
			c.Ops = append(c.Ops, o)
		}
		if sched {
			c.Sched = rapid.SliceOfN(rapid.IntRange(0, n-1), 4, 60).Draw(t, "sched")
		} else {
			c.Reps = rapid.IntRange(1, 3).Draw(t, "reps")
			if len(kinds) == len(xopLight) && kinds[0] == xopLight[0] && kinds[len(kinds)-1] == "drbg" {
				c.Reps *= 20
			}
		}
		return c
	}
}

// turns lets one of several goroutines run at a time, in an order given by the case.
type turns struct {
	mu     sync.Mutex
	gate   []chan struct{}
	alive  []bool
	choice []int
	k      int
	swaps  int
	free   bool
	freeCh chan struct{}
}

func newTurns(n int, choice []int) *turns {
	t := &turns{choice: choice, freeCh: make(chan struct{})}
	for i := 0; i < n; i++ {
		t.gate = append(t.gate, make(chan struct{}, 1))
		t.alive = append(t.alive, true)
	}
	return t
}

// next wakes the one to run now.
func (t *turns) next(from int) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	var l []int
	for i, a := range t.alive {
		if a {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return -1
	}
	c := 0
	if len(t.choice) > 0 {
		c = t.choice[t.k%len(t.choice)] + t.k/len(t.choice)
	}
	t.k++
	w := l[c%len(l)]
	if w != from {
		t.swaps++
		t.gate[w] <- struct{}{}
	}
	return w
}

func (t *turns) wait(i int) {
	select {
	case <-t.freeCh:
		return
	default:
	}
	select {
	case <-t.gate[i]:
	case <-t.freeCh:
	case <-time.After(20 * time.Second):
		// the one running waits for somebody else (say, for a lock in the
		// library): let everything run
		t.mu.Lock()
		if !t.free {
			t.free = true
			close(t.freeCh)
		}
		t.mu.Unlock()
	}
}

func (t *turns) step(i int) {
	select {
	case <-t.freeCh:
		return
	default:
	}
	if t.next(i) != i {
		t.wait(i)
	}
}

func (t *turns) finish(i int) {
	t.mu.Lock()
	t.alive[i] = false
	t.mu.Unlock()
	select {
	case <-t.freeCh:
		return
	default:
	}
	t.next(-1)
}

func runC30(c c30, x *Ctx) error { return bothCPU(c.CPU, func() error { return runC30in(c, x) }) }

func runC30in(c c30, x *Ctx) error {
	want := make([][]string, len(c.Ops))
	for i, o := range c.Ops {
		want[i] = o.exec(&xenv{aesni: true, shared: &sharedKeys{m: map[string]*sikePair{}}})
	}
	shared := &sharedKeys{m: map[string]*sikePair{}}
	for _, o := range c.Ops {
		if o.Shared && (o.Kind == "kem" || o.Kind == "multi") {
			e := &xenv{shared: shared}
			for i := range o.K {
				e.pair(o, i)
			}
		}
	}
	var wg sync.WaitGroup
	errs := make([]error, len(c.Ops))
	harness := make([]any, len(c.Ops))
	var tr *turns
	if c.Sched != nil {
		tr = newTurns(len(c.Ops), c.Sched)
	}
	start := make(chan struct{})
	var overlap int32
	var active int32
	for i, o := range c.Ops {
		wg.Add(1)
		go func(i int, o xop) {
			defer wg.Done()
			defer func() {
				if tr != nil {
					tr.finish(i)
				}
			}()
			defer func() {
				if h := recover(); h != nil {
					harness[i] = h
				}
			}()
			<-start
			if tr != nil {
				tr.wait(i)
			}
			if atomic.AddInt32(&active, 1) > 1 {
				atomic.StoreInt32(&overlap, 1)
			}
			defer atomic.AddInt32(&active, -1)
			for r := 0; r < c.Reps; r++ {
				e := &xenv{aesni: true, shared: shared}
				if tr != nil {
					e.step = func() { tr.step(i) }
				}
				if got := o.exec(e); !eqLog(want[i], got) {
					errs[i] = Errf("operation %d (%s %s %d), run together with others, gives a different result than alone: %s", i, o.Kind, o.Sub, o.Set, firstDiff(want[i], got))
					return
				}
			}
		}(i, o)
	}
	close(start)
	if tr != nil {
		tr.next(-1)
	}
	wg.Wait()
	for i, h := range harness {
		if h != nil {
			if he, ok := h.(HarnessError); ok {
				return he
			}
			return Errf("operation %d: %v", i, h)
		}
	}
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	if tr != nil && tr.swaps > len(c.Ops) || tr == nil && overlap > 0 {
		x.NT()
	}
	for _, o := range c.Ops {
		x.Label("%s", o.Kind)
	}
	return nil
}

// --- C31 all builds agree

type c31 struct {
	Ops []xop `json:"ops"`
}

func genC31(kinds []string, max int) func(t *rapid.T) c31 {
	return func(t *rapid.T) c31 {
		return c31{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) xop { return drawXop(t, kinds, skCheap) }), 1, max).Draw(t, "ops")}
	}
}

// transcript runs operations one after the other with fresh objects.
func transcript(ops []xop, aesni bool) (r [][]string) {
	for _, o := range ops {
		r = append(r, o.exec(&xenv{aesni: aesni}))
	}
	return r
}

func init() {
	Children["transcript"] = func([]string) {
		in := bufio.NewReaderSize(os.Stdin, 1<<20)
		for {
			l, err := in.ReadBytes('\n')
			if err != nil {
				return
			}
			var ops []xop
			if err := json.Unmarshal(l, &ops); err != nil {
				panic(err)
			}
			b, err := json.Marshal(transcript(ops, false))
			if err != nil {
				panic(err)
			}
			os.Stdout.Write(append(b, '\n'))
		}
	}
}

type peer struct {
	cmd *exec.Cmd
	in  io.Writer
	out *bufio.Reader
	err *bytes.Buffer
}

var peers = map[string]*peer{}

func ask(config string, ops []xop) (r [][]string, crash string, err error) {
	p := peers[config]
	if p == nil {
		p = &peer{cmd: exec.Command(BinFor(config), "child", "transcript"), err: new(bytes.Buffer)}
		w, e := p.cmd.StdinPipe()
		if e != nil {
			return nil, "", e
		}
		o, e := p.cmd.StdoutPipe()
		if e != nil {
			return nil, "", e
		}
		p.cmd.Stderr = p.err
		p.in, p.out = w, bufio.NewReaderSize(o, 1<<20)
		if e := p.cmd.Start(); e != nil {
			return nil, "", e
		}
		peers[config] = p
	}
	b, _ := json.Marshal(ops)
	p.in.Write(append(b, '\n'))
	l, e := p.out.ReadBytes('\n')
	if e != nil {
		delete(peers, config)
		p.cmd.Wait()
		s := p.err.String()
		if strings.Contains(s, "henrydcase/nobs") {
			if len(s) > 1500 {
				s = s[:1500]
			}
			return nil, s, nil
		}
		return nil, "", fmt.Errorf("child of build %s: %v %s", config, e, s)
	}
	return r, "", json.Unmarshal(l, &r)
}

var c31builds = []string{"noasm", "appengine", "386"}

func runC31(c c31, x *Ctx) error {
	want := transcript(c.Ops, true)
	cmp := func(name string, got [][]string) error {
		for i := range want {
			if !eqLog(want[i], got[i]) {
				return Errf("%s of %+v: default build and %s differ: %s", c.Ops[i].Kind, opName(c.Ops[i]), name, firstDiff(want[i], got[i]))
			}
		}
		return nil
	}
	for _, k := range []string{"bmi2", "plain"} {
		need := false
		for _, o := range c.Ops {
			need = need || o.Kind != "hash" && o.Kind != "xof" && !strings.HasSuffix(o.Kind, "-long")
		}
		if !need {
			break
		}
		var got [][]string
		if err := bothCPU(k, func() error { got = transcript(c.Ops, k == "bmi2"); return nil }); err != nil {
			return err
		}
		if err := cmp("the code for CPUs of kind "+k, got); err != nil {
			return err
		}
	}
	n := 0
	for _, b := range c31builds {
		if _, err := os.Stat(BinFor(b)); err != nil {
			continue
		}
		got, crash, err := ask(b, c.Ops)
		if err != nil {
			return HarnessError{err.Error()}
		}
		if crash != "" {
			return Errf("build %s crashes: %s", b, crash)
		}
		if len(got) != len(want) {
			return HarnessError{"short transcript"}
		}
		if err := cmp("build "+b, got); err != nil {
			return err
		}
		n++
	}
	if n > 0 {
		x.NT()
	}
	for _, o := range c.Ops {
		x.Label("%s, %d builds", o.Kind, n)
	}
	return nil
}

func opName(o xop) string { return fmt.Sprintf("%s %s %d seed %d", o.Kind, o.Sub, o.Set, o.Seed) }

// c31b: the library builds.
type c31b struct {
	Arch string `json:"arch"`
	Tags string `json:"tags"`
}

var compileErr = regexp.MustCompile(`(?m)^\S+\.(go|s):\d+|build constraints exclude all|relocation target .* not defined`)

func runC31b(c c31b, x *Ctx) error {
	args := []string{"build", "-tags", c.Tags,
		"github.com/henrydcase/nobs/dh/...", "github.com/henrydcase/nobs/drbg/...", "github.com/henrydcase/nobs/hash/...", "github.com/henrydcase/nobs/utils/...", "mkem"}
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(Env("VERIF_ROOT", "/verif"), "harness")
	cmd.Env = append(os.Environ(), "GOOS=linux", "GOARCH="+c.Arch, "CGO_ENABLED=0")
	b, err := cmd.CombinedOutput()
	if err != nil {
		if compileErr.Match(b) {
			return Errf("GOARCH=%s go build -tags '%s' fails: %s", c.Arch, c.Tags, Short(b)+"\n"+string(b[:min(len(b), 600)]))
		}
		return HarnessError{fmt.Sprintf("go build: %v %s", err, b)}
	}
	x.NT()
	return nil
}

// c31c: the harness, hence the library, links on the builds of c31.
type c31c struct {
	Build string `json:"build"`
}

func runC31c(c c31c, x *Ctx) error {
	b, err := os.ReadFile(filepath.Join(Env("VERIF_BIN", ""), "failed-"+c.Build))
	if err == nil {
		if compileErr.Match(b) {
			return Errf("build %s fails: %s", c.Build, string(b[:min(len(b), 800)]))
		}
		return HarnessError{"build " + c.Build + ": " + string(b)}
	}
	x.NT()
	return nil
}

// --- C32 caller's memory

type c32 struct {
	CPU   string `json:"cpu"`
	Op    xop    `json:"op"`
	Page  bool   `json:"page"`
	Off   int    `json:"off"`
	Extra int    `json:"extra"`
}

func genC32(kinds []string) func(t *rapid.T) c32 {
	return func(t *rapid.T) c32 {
		return c32{drawCPU(t), drawXop(t, kinds, skCheap), rapid.Bool().Draw(t, "page"), rapid.IntRange(0, 16).Draw(t, "off"), rapid.SampledFrom([]int{0, 1, 7, 100, 3000}).Draw(t, "extra")}
	}
}

func runC32(c c32, x *Ctx) error { return bothCPU(c.CPU, func() error { return runC32in(c, x) }) }

func runC32in(c c32, x *Ctx) error {
	want := c.Op.exec(&xenv{aesni: true})
	g := &guarded{page: c.Page, off: c.Off, extra: c.Extra, seed: c.Op.Seed}
	defer g.free()
	e := &xenv{aesni: true, mem: g}
	got := c.Op.exec(e)
	if e.err != nil {
		return Errf("%s: %v", opName(c.Op), e.err)
	}
	if !eqLog(want, got) {
		return Errf("%s: result depends on where the caller's buffers are or on what happens to them after the call: %s", opName(c.Op), firstDiff(want, got))
	}
	if g.total > 1 {
		x.NT()
	}
	x.Label("%s %s", c.Op.Kind, c.Op.Sub)
	runtime.KeepAlive(g)
	return nil
}

func init() {
	all := []string{"hash", "xof", "drbg", "sidh", "kem", "kem", "multi", "csidh", "csidh-gen", "pke"}
	mid := []string{"hash", "xof", "drbg", "sidh", "kem", "kem", "multi"}
	Register(&Prop{ID: "C30", Suites: []*Suite{
		Gen(Suite{Name: "interleaved", Quick: 1000, Thorough: 20000, CaseLimit: 120, Rule: "two to five operations on separate objects (some on shared SIDH keys), switched between calls and inside reads of randomness in a generated order with more switches than operations; each result equals that of the operation alone"}, genC30(all, true, 2, 5), runC30),
		Gen(Suite{Name: "parallel", Shards: 3, Quick: 400, Thorough: 10000, CaseLimit: 120, Rule: "as interleaved, on goroutines that were seen to overlap"}, genC30(all, false, 2, 8), runC30),
		Gen(Suite{Name: "parallel-light", Shards: 3, Quick: 1500, Thorough: 60000, CaseLimit: 120, Rule: "as parallel, hashes and generators"}, genC30(xopLight, false, 2, 12), runC30),
		Gen(Suite{Name: "race", Config: "race", Shards: 4, Quick: 120, Thorough: 2000, CaseLimit: 240, Env: []string{"GORACE=halt_on_error=1"}, Rule: "as parallel, under the race detector"}, genC30(all, false, 2, 5), runC30),
		Gen(Suite{Name: "race-light", Config: "race", Shards: 4, Quick: 800, Thorough: 8000, CaseLimit: 240, Env: []string{"GORACE=halt_on_error=1"}, Rule: "as parallel-light, under the race detector"}, genC30(xopLight, false, 2, 6), runC30),
	}})
	Register(&Prop{ID: "C31", Suites: append(isaSuites(),
		Enum(Suite{Name: "builds", Config: "", Needs: c31builds, Rule: "the library links into the harness with the tags noasm and appengine and for 386"}, func(tier string, emit func(c31c)) {
			for _, b := range c31builds {
				emit(c31c{b})
			}
		}, runC31c),
		Enum(Suite{Name: "matrix", Shards: 2, CaseLimit: 400, Rule: "every package compiles for the architecture and tags"}, func(tier string, emit func(c31b)) {
			arch := []string{"amd64", "arm64", "386"}
			if tier == "thorough" {
				arch = []string{"amd64", "arm64", "386", "arm", "ppc64le", "s390x", "riscv64"}
			}
			for _, a := range arch {
				for _, t := range []string{"", "noasm", "appengine", "noasm,appengine"} {
					emit(c31b{a, t})
				}
			}
		}, runC31b),
		Gen(Suite{Name: "transcripts", Needs: c31builds, Quick: 600, Thorough: 10000, CaseLimit: 300, Rule: "operations on every part of the library, each run with three kinds of CPU features, AES instructions on and off, and in builds noasm, appengine and 386; all outputs equal"}, genC31(mid, 3), runC31),
		Gen(Suite{Name: "transcripts-csidh", Needs: c31builds, Quick: 80, Thorough: 1500, CaseLimit: 300, Rule: "as transcripts, CSIDH and PKE"}, genC31([]string{"csidh", "csidh-gen", "pke"}, 1), runC31),
		Enum(Suite{Name: "transcripts-long", Needs: c31builds, CaseLimit: 800, Rule: "as transcripts, messages of hundreds of megabytes (beyond 2^32 bits for SM3)"}, func(tier string, emit func(c31)) {
			n := []int{513, 24}
			if tier == "thorough" {
				n = []int{4100, 1100}
			}
			emit(c31{[]xop{{Kind: "hash-long", Sub: "sm3", Seed: seedBase(), N: []int{n[0], 77}}}})
			for _, k := range fixedKinds {
				emit(c31{[]xop{{Kind: "hash-long", Sub: k, Seed: seedBase() + 1, N: []int{n[1], 3}}}})
			}
			for _, k := range xofKinds {
				emit(c31{[]xop{{Kind: "xof-long", Sub: k, Seed: seedBase() + 2, N: []int{n[1], 99}}}})
			}
		}, runC31),
		Gen(Suite{Name: "transcripts-light", Needs: c31builds, Quick: 4000, Thorough: 100000, Rule: "as transcripts, hashes and generators"}, genC31(xopLight, 3), runC31),
	)})
	Register(&Prop{ID: "C32", Suites: []*Suite{
		Gen(Suite{Name: "memory", Quick: 4000, Thorough: 30000, Rule: "an operation with all buffers (at least two) misaligned between canaries or in front of an inaccessible page, longer than needed, overwritten after each call; results equal those with ordinary buffers, inputs and surroundings unchanged"}, genC32(all), runC32),
		Gen(Suite{Name: "memory-light", Quick: 16000, Thorough: 300000, Rule: "as memory, hashes and generators"}, genC32(xopLight), runC32),
		Gen(Suite{Name: "memory-noasm", Config: "noasm", Quick: 1000, Thorough: 4000, Rule: "as memory, pure Go build"}, genC32(mid), runC32),
		Gen(Suite{Name: "memory-appengine", Config: "appengine", Quick: 4000, Thorough: 40000, Rule: "as memory-light, portable buffer handling"}, genC32(xopLight), runC32),
	}})
}
