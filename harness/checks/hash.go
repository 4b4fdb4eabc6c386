package checks

import (
	"bytes"
	"crypto/hmac"
	stdsha3 "crypto/sha3"
	"hash"
	"io"

	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/hash/sm3"
	"pgregory.net/rapid"
	. "verif/core"
	"verif/ref/sm3ref"
)

var hashRate = map[string]int{"sha3-224": 144, "sha3-256": 136, "sha3-384": 104, "sha3-512": 72,
	"shake128": 168, "shake256": 136, "cshake128": 168, "cshake256": 136, "sm3": 64}
var hashSize = map[string]int{"sha3-224": 28, "sha3-256": 32, "sha3-384": 48, "sha3-512": 64, "sm3": 32}
var fixedKinds = []string{"sha3-224", "sha3-256", "sha3-384", "sha3-512", "sm3"}
var xofKinds = []string{"shake128", "shake256", "cshake128", "cshake256"}
var sha3Kinds = []string{"sha3-224", "sha3-256", "sha3-384", "sha3-512", "shake128", "shake256", "cshake128", "cshake256"}

func newFixed(k string) hash.Hash {
	switch k {
	case "sha3-224":
		return sha3.New224()
	case "sha3-256":
		return sha3.New256()
	case "sha3-384":
		return sha3.New384()
	case "sha3-512":
		return sha3.New512()
	case "sm3":
		return sm3.New()
	}
	panic(HarnessError{"kind " + k})
}

func newXOF(k string, n, s []byte) sha3.ShakeHash {
	switch k {
	case "shake128":
		return sha3.NewShake128()
	case "shake256":
		return sha3.NewShake256()
	case "cshake128":
		return sha3.NewCShake128(n, s)
	case "cshake256":
		return sha3.NewCShake256(n, s)
	}
	panic(HarnessError{"kind " + k})
}

// wantHash is the reference output of n bytes (fixed hashes ignore n).
func wantHash(k string, fn, cs, msg []byte, n int) []byte {
	x := func(h *stdsha3.SHAKE) []byte {
		h.Write(msg)
		o := make([]byte, n)
		h.Read(o)
		return o
	}
	switch k {
	case "sha3-224":
		s := stdsha3.Sum224(msg)
		return s[:]
	case "sha3-256":
		s := stdsha3.Sum256(msg)
		return s[:]
	case "sha3-384":
		s := stdsha3.Sum384(msg)
		return s[:]
	case "sha3-512":
		s := stdsha3.Sum512(msg)
		return s[:]
	case "sm3":
		return sm3ref.Sum(msg)
	}
	return x(wantXof(k, fn, cs))
}

// wantXof is the reference for an extendable-output function.
func wantXof(k string, fn, cs []byte) *stdsha3.SHAKE {
	switch k {
	case "shake128":
		return stdsha3.NewSHAKE128()
	case "shake256":
		return stdsha3.NewSHAKE256()
	case "cshake128":
		return stdsha3.NewCSHAKE128(fn, cs)
	case "cshake256":
		return stdsha3.NewCSHAKE256(fn, cs)
	}
	panic(HarnessError{"kind " + k})
}

// drawLen draws a length with emphasis on block boundaries.
func drawLen(t *rapid.T, label string, rate, max int) int {
	n := 0
	switch rapid.IntRange(0, 5).Draw(t, label+".m") {
	case 0:
		n = rapid.IntRange(0, 9).Draw(t, label)
	case 1, 2:
		n = rate*rapid.IntRange(0, 5).Draw(t, label+".k") + rapid.IntRange(-9, 9).Draw(t, label+".d")
	case 3, 4:
		n = rapid.IntRange(0, 3*rate).Draw(t, label)
	default:
		n = rapid.IntRange(0, max).Draw(t, label)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	return n
}

func drawSplits(t *rapid.T, label string, rate, max, cnt int) []int {
	n := rapid.IntRange(0, cnt).Draw(t, label+".cnt")
	r := []int{}
	for i := 0; i < n; i++ {
		r = append(r, drawLen(t, label, rate, max))
	}
	return r
}

// drawCustom draws a cSHAKE function name / customization string.
func drawCustom(t *rapid.T, label string, rate int) Blob {
	n := 0
	switch rapid.IntRange(0, 6).Draw(t, label+".m") {
	case 0, 1:
	case 2:
		n = rapid.IntRange(1, 40).Draw(t, label)
	case 3:
		// the whole prefix is about a multiple of the rate long
		n = rate*rapid.IntRange(1, 3).Draw(t, label+".k") - rapid.IntRange(0, 16).Draw(t, label+".d")
	case 4: // around lengths where the encoding of the bit length grows
		n = rapid.SampledFrom([]int{31, 32, 33, 8191, 8192, 8193}).Draw(t, label)
	default:
		n = rapid.IntRange(0, 2*rate).Draw(t, label)
	}
	return DrawBlob(t, label, n)
}

// feeder hands out buffers for inputs: placed against an inaccessible page or
// at a given misalignment; spoiled after use.
type feeder struct {
	page bool
	off  int
}

func (f feeder) use(b []byte, fn func(b []byte)) error {
	var in []byte
	if f.page {
		p := PageOf(b)
		defer p.Free()
		in = p.B
	} else {
		x := make([]byte, len(b)+f.off+16)
		in = x[f.off : f.off+len(b)]
		copy(in, b)
	}
	fn(in)
	if !bytes.Equal(in, b) {
		return Errf("input buffer was modified")
	}
	for i := range in {
		in[i] ^= 0xEE
	}
	return nil
}

type c01 struct {
	Kind   string `json:"kind"`
	N, S   Blob
	Msg    Blob  `json:"msg"`
	Splits []int `json:"writes"`
	Reads  []int `json:"reads"`
	Off    int   `json:"off"`
	Page   bool  `json:"page"`
}

func genC01(max int) func(t *rapid.T) c01 {
	return func(t *rapid.T) c01 {
		k := rapid.SampledFrom(sha3Kinds).Draw(t, "kind")
		r := hashRate[k]
		c := c01{Kind: k}
		if k[0] == 'c' {
			c.N = drawCustom(t, "N", r)
			c.S = drawCustom(t, "S", r)
		}
		c.Msg = DrawBlob(t, "msg", drawLen(t, "len", r, max))
		c.Splits = drawSplits(t, "w", r, max, 6)
		if _, ok := hashSize[k]; !ok {
			c.Reads = append(drawSplits(t, "r", r, 1500, 6), drawLen(t, "rl", r, 1500))
		}
		c.Off = rapid.IntRange(0, 15).Draw(t, "off")
		c.Page = rapid.IntRange(0, 3).Draw(t, "page") == 0
		return c
	}
}

func writeSplit(w io.Writer, msg []byte, splits []int, f feeder) error {
	i, left := 0, msg
	for {
		n := len(left)
		if i < len(splits) && splits[i] < n {
			n = splits[i]
		}
		part := left[:n]
		var werr error
		if err := f.use(part, func(b []byte) {
			m, err := w.Write(b)
			if err != nil || m != len(b) {
				werr = Errf("Write of %d bytes returned (%d, %v)", len(b), m, err)
			}
		}); err != nil {
			return err
		}
		if werr != nil {
			return werr
		}
		left = left[n:]
		i++
		if len(left) == 0 && i >= len(splits) {
			return nil
		}
		if len(left) == 0 && i > 8 {
			return nil
		}
	}
}

func readInto(r io.Reader, n int, page bool, off int) ([]byte, error) {
	var out []byte
	if page {
		p := NewPage(n)
		defer p.Free()
		for i := range p.B {
			p.B[i] = 0x5a
		}
		m, err := r.Read(p.B)
		if err != nil || m != n {
			return nil, Errf("Read of %d bytes returned (%d, %v)", n, m, err)
		}
		out = append([]byte{}, p.B...)
		return out, nil
	}
	g := NewGuard(n, off)
	m, err := r.Read(g.BCap())
	if err != nil || m != n {
		return nil, Errf("Read of %d bytes returned (%d, %v)", n, m, err)
	}
	if err := g.Check(n); err != nil {
		return nil, Errf("Read: %v", err)
	}
	return append([]byte{}, g.B()...), nil
}

func runC01(c c01, x *Ctx) error {
	msg, fn, cs := c.Msg.Bytes(), c.N.Bytes(), c.S.Bytes()
	f := feeder{c.Page, c.Off}
	if len(msg) > 0 {
		x.NT()
	}
	x.Label("%s", c.Kind)
	if _, ok := hashSize[c.Kind]; ok {
		h := newFixed(c.Kind)
		if err := writeSplit(h, msg, c.Splits, f); err != nil {
			return err
		}
		got, want := h.Sum(nil), wantHash(c.Kind, nil, nil, msg, 0)
		if !bytes.Equal(got, want) {
			return Errf("%s of %d bytes written as %v: got %s, FIPS 202 says %s", c.Kind, len(msg), c.Splits, Short(got), Short(want))
		}
		return nil
	}
	total := 0
	for _, n := range c.Reads {
		total += n
	}
	want := wantHash(c.Kind, fn, cs, msg, total)
	h := newXOF(c.Kind, fn, cs)
	if err := writeSplit(h, msg, c.Splits, f); err != nil {
		return err
	}
	pos := 0
	for i, n := range c.Reads {
		got, err := readInto(h, n, c.Page, c.Off)
		if err != nil {
			return err
		}
		if !bytes.Equal(got, want[pos:pos+n]) {
			return Errf("%s(N=%d bytes, S=%d bytes) of %d bytes written as %v: read %d of %v (output bytes %d..%d): got %s, want %s",
				c.Kind, len(fn), len(cs), len(msg), c.Splits, i, c.Reads, pos, pos+n, Short(got), Short(want[pos:pos+n]))
		}
		pos += n
	}
	if pos > 0 {
		x.NT()
	}
	switch c.Kind {
	case "shake128", "shake256":
		g := NewGuard(total, c.Off)
		if c.Kind == "shake128" {
			sha3.ShakeSum128(g.B(), msg)
		} else {
			sha3.ShakeSum256(g.B(), msg)
		}
		if err := g.Check(total); err != nil {
			return Errf("ShakeSum: %v", err)
		}
		if !bytes.Equal(g.B(), want) {
			return Errf("ShakeSum for %s of %d bytes, %d bytes of output: got %s, want %s", c.Kind, len(msg), total, Short(g.B()), Short(want))
		}
	}
	return nil
}

type lenCase struct {
	Kind string `json:"kind"`
	Len  int    `json:"len"`
	N    int    `json:"n"`
}

// --- histories over several objects (C02, C03, C04)

type hop struct {
	Op  string `json:"op"`
	Obj int    `json:"o"`
	N   int    `json:"n,omitempty"`
	M   int    `json:"m,omitempty"`
	B   Blob   `json:"b,omitempty"`
}
type hist struct {
	Kind []string `json:"kinds"`
	N, S []Blob
	Ops  []hop `json:"ops"`
	Page bool  `json:"page"`
	Off  int   `json:"off"`
}

func genHist(kinds []string, maxOps, maxLen int, prefixes bool) func(t *rapid.T) hist {
	return func(t *rapid.T) hist {
		var c hist
		nobj := rapid.IntRange(1, 3).Draw(t, "nobj")
		for i := 0; i < nobj; i++ {
			k := rapid.SampledFrom(kinds).Draw(t, "kind")
			c.Kind = append(c.Kind, k)
			var n, s Blob
			if k[0] == 'c' {
				n, s = drawCustom(t, "N", hashRate[k]), drawCustom(t, "S", hashRate[k])
			}
			c.N = append(c.N, n)
			c.S = append(c.S, s)
		}
		c.Off = rapid.IntRange(0, 15).Draw(t, "off")
		c.Page = rapid.IntRange(0, 5).Draw(t, "page") == 0
		c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) hop {
			o := hop{Obj: rapid.IntRange(0, 5).Draw(t, "obj")}
			o.Op = rapid.SampledFrom([]string{"write", "write", "write", "read", "read", "sum", "sum", "reset", "clone", "clone", "fresh", "writeall", "iocopy"}).Draw(t, "op")
			r := 136
			if len(c.Kind) > 0 {
				r = hashRate[c.Kind[o.Obj%len(c.Kind)]]
			}
			switch o.Op {
			case "write", "writeall", "iocopy":
				o.B = DrawBlob(t, "b", drawLen(t, "len", r, maxLen))
			case "read":
				o.N = drawLen(t, "n", r, maxLen)
			case "sum":
				o.N = rapid.SampledFrom([]int{-1, 0, 0, 1, 5, 32, 63, 64, 65, 200}).Draw(t, "pre")
				if rapid.Bool().Draw(t, "prelen") {
					o.N = drawLen(t, "pre.n", r, 700)
				}
				if !prefixes {
					o.N = -1
				}
				o.M = rapid.SampledFrom([]int{0, 1, 27, 28, 31, 32, 48, 63, 64, 100, 300}).Draw(t, "cap")
			case "clone":
				o.N = rapid.IntRange(0, 5).Draw(t, "to")
			}
			return o
		}), 3, maxOps).Draw(t, "ops")
		return c
	}
}

type hobj struct {
	kind   string
	fn, cs []byte
	fix    hash.Hash
	xof    sha3.ShakeHash
	msg    []byte
	out    int
	squeez bool
}

func makeObj(k string, fn, cs []byte) *hobj {
	o := &hobj{kind: k, fn: fn, cs: cs}
	if _, ok := hashSize[k]; ok {
		o.fix = newFixed(k)
		return o
	}
	// the constructor must not hold on to the caller's strings
	a, b := append([]byte{}, fn...), append([]byte{}, cs...)
	o.xof = newXOF(k, a, b)
	for i := range a {
		a[i] ^= 0xff
	}
	for i := range b {
		b[i] ^= 0xff
	}
	return o
}

func (o *hobj) w() io.Writer {
	if o.fix != nil {
		return o.fix
	}
	return o.xof
}

func (o *hobj) reset() {
	if o.fix != nil {
		o.fix.Reset()
	} else {
		o.xof.Reset()
	}
}

func runHist(c hist, x *Ctx) error {
	var objs []*hobj
	for i, k := range c.Kind {
		objs = append(objs, makeObj(k, c.N[i].Bytes(), c.S[i].Bytes()))
	}
	f := feeder{c.Page, c.Off}
	wrote, events := false, 0
	for i, op := range c.Ops {
		o := objs[op.Obj%len(objs)]
		switch op.Op {
		case "write", "writeall", "iocopy":
			b := op.B.Bytes()
			if o.squeez {
				// writing after reading must be refused (an error, or the
				// panic announced by the documentation) and change nothing
				var n int
				var err error
				cgt := Try(func() { n, err = o.w().Write(b) })
				if !cgt.Panicked && (err == nil || n != 0) {
					return Errf("op %d: %s: Write of %d bytes after Read returned (%d, %v), want a refusal", i, o.kind, len(b), n, err)
				}
				x.Label("write-after-read")
				events++
				continue
			}
			wrote = wrote || len(b) > 0
			if op.Op == "iocopy" {
				n, err := io.Copy(o.w(), bytes.NewReader(b))
				if err != nil || n != int64(len(b)) {
					return Errf("op %d: %s: io.Copy of %d bytes returned (%d, %v)", i, o.kind, len(b), n, err)
				}
			} else if err := writeSplit(o.w(), b, nil, f); err != nil {
				return Errf("op %d: %s: %v", i, o.kind, err)
			}
			o.msg = append(o.msg, b...)
		case "read":
			if o.xof == nil {
				continue
			}
			o.squeez = true
			want := wantHash(o.kind, o.fn, o.cs, o.msg, o.out+op.N)[o.out:]
			got, err := readInto(o.xof, op.N, c.Page, c.Off)
			if err != nil {
				return Errf("op %d: %s: %v", i, o.kind, err)
			}
			if !bytes.Equal(got, want) {
				return Errf("op %d: %s: after %d input bytes, output bytes %d..%d: got %s, want %s", i, o.kind, len(o.msg), o.out, o.out+op.N, Short(got), Short(want))
			}
			o.out += op.N
		case "sum":
			if o.fix == nil {
				continue
			}
			events++
			if err := checkSum(o, op, x, i); err != nil {
				return err
			}
		case "reset":
			if wrote {
				events++
			}
			o.reset()
			o.msg, o.out, o.squeez = nil, 0, false
		case "fresh":
			k := op.Obj % len(objs)
			objs[k] = makeObj(o.kind, o.fn, o.cs)
		case "clone":
			if o.xof == nil {
				continue
			}
			events++
			d := *o
			d.msg = append([]byte{}, o.msg...)
			d.xof = o.xof.Clone()
			if len(objs) < 6 {
				objs = append(objs, &d)
			} else {
				objs[op.N%len(objs)] = &d
			}
		}
	}
	// every object still is where the model says
	for i, o := range objs {
		if o.fix != nil {
			if g, w := o.fix.Sum(nil), wantHash(o.kind, nil, nil, o.msg, 0); !bytes.Equal(g, w) {
				return Errf("at the end: object %d (%s): digest of %d bytes is %s, want %s", i, o.kind, len(o.msg), Short(g), Short(w))
			}
			if o.fix.Size() != hashSize[o.kind] || o.fix.BlockSize() != hashRate[o.kind] {
				return Errf("%s: Size()=%d BlockSize()=%d", o.kind, o.fix.Size(), o.fix.BlockSize())
			}
			continue
		}
		w := wantHash(o.kind, o.fn, o.cs, o.msg, o.out+200)[o.out:]
		g := make([]byte, 200)
		if n, err := o.xof.Read(g); n != 200 || err != nil || !bytes.Equal(g, w) {
			return Errf("at the end: object %d (%s): %d input bytes, output at %d: got %s, want %s", i, o.kind, len(o.msg), o.out, Short(g), Short(w))
		}
	}
	if wrote && events > 0 {
		x.NT()
	}
	return nil
}

// checkSum compares Sum(prefix) with the contract of hash.Hash.
func checkSum(o *hobj, op hop, x *Ctx, i int) error {
	want := wantHash(o.kind, nil, nil, o.msg, 0)
	var pre, spare, was []byte
	if op.N >= 0 {
		b := make([]byte, op.N+op.M)
		NewPRNG(uint64(i) + 77).Fill(b)
		pre = b[:op.N]
		// appending may use the spare capacity for the digest, nothing more
		spare = b[min(op.N+o.fix.Size(), len(b)):]
		was = append(was, spare...)
	}
	orig := append([]byte{}, pre...)
	got := o.fix.Sum(pre)
	if !bytes.Equal(spare, was) {
		return Errf("op %d: %s: Sum with a %d-byte prefix of capacity %d wrote beyond the appended digest", i, o.kind, len(pre), cap(pre))
	}
	if !bytes.Equal(pre, orig) {
		return Errf("op %d: %s: Sum changed the %d bytes it should append to", i, o.kind, len(pre))
	}
	if bytes.Equal(got, append(append([]byte{}, orig...), want...)) {
		return nil
	}
	if o.kind == "sm3" && len(orig) > 0 && bytes.Equal(got, sm3ref.Sum(append(append([]byte{}, o.msg...), orig...))) {
		if err := x.Known("sm3-sum-hashes-prefix", "sm3: Sum(in) of %d bytes returns the digest of written||in instead of appending to in", len(orig)); err != nil {
			return Errf("op %d: %v", i, err)
		}
		x.Label("sm3 Sum with a prefix")
		return nil
	}
	return Errf("op %d: %s: Sum with a %d-byte prefix (capacity %d) after %d bytes: got %s, want prefix followed by %s", i, o.kind, len(orig), cap(pre), len(o.msg), Short(got), Short(want))
}

// sumCase asks one object for several digests appended to prefixes of one
// length but various capacities, while its message grows.
type sumCase struct {
	Kind string `json:"kind"`
	Pre  int    `json:"prefix"`
}

func enumSums(tier string, emit func(sumCase)) {
	n := 640
	if tier == "thorough" {
		n = 5000
	}
	for _, k := range fixedKinds {
		for i := 0; i <= n; i++ {
			emit(sumCase{k, i})
		}
	}
}

func runSums(c sumCase, x *Ctx) error {
	o := makeObj(c.Kind, nil, nil)
	p := NewPRNG(uint64(c.Pre)*31 + uint64(len(c.Kind)))
	rate := hashRate[c.Kind]
	for i, spare := range []int{0, 1, hashSize[c.Kind] - 1, hashSize[c.Kind], hashSize[c.Kind] + 1, rate, 2*rate + 3} {
		b := make([]byte, []int{0, 1, rate - 1, 7, rate, 13, 2 * rate}[(i+c.Pre)%7])
		p.Fill(b)
		if n, err := o.fix.Write(b); n != len(b) || err != nil {
			return Errf("%s: Write of %d bytes returned (%d, %v)", c.Kind, len(b), n, err)
		}
		o.msg = append(o.msg, b...)
		for k := 0; k < 2; k++ {
			if err := checkSum(o, hop{N: c.Pre, M: spare}, x, i); err != nil {
				return err
			}
		}
	}
	if c.Pre > 0 {
		x.NT()
	}
	return nil
}

// --- C03

type c03 struct {
	Msg    Blob  `json:"msg"`
	Splits []int `json:"writes"`
	Off    int   `json:"off"`
	Page   bool  `json:"page"`
	// digests asked for after these writes must not disturb the rest
	SumAt []int `json:"sumat"`
	Dirty Blob  `json:"dirty"` // hashed and Reset before the message
}

func genC03(t *rapid.T) c03 {
	return c03{
		Msg:    DrawBlob(t, "msg", drawLen(t, "len", 64, 3000)),
		Splits: drawSplits(t, "w", 64, 400, 8),
		Off:    rapid.IntRange(0, 15).Draw(t, "off"),
		Page:   rapid.IntRange(0, 4).Draw(t, "page") == 0,
		SumAt:  rapid.SliceOfN(rapid.IntRange(0, 8), 0, 3).Draw(t, "sumat"),
		Dirty:  DrawBlob(t, "dirty", rapid.SampledFrom([]int{0, 0, 1, 55, 56, 63, 64, 65, 130}).Draw(t, "dl")),
	}
}

func runC03(c c03, x *Ctx) error {
	h := sm3.New()
	if c.Dirty.Len > 0 {
		h.Write(c.Dirty.Bytes())
		h.Reset()
		x.Label("after reset")
	}
	msg := c.Msg.Bytes()
	f := feeder{c.Page, c.Off}
	at := map[int]bool{}
	for _, v := range c.SumAt {
		at[v] = true
	}
	left, done := msg, 0
	for i := 0; i <= len(c.Splits); i++ {
		n := len(left)
		if i < len(c.Splits) && c.Splits[i] < n {
			n = c.Splits[i]
		}
		if err := writeSplit(h, left[:n], nil, f); err != nil {
			return err
		}
		left = left[n:]
		done += n
		if at[i] {
			if g, w := h.Sum(nil), sm3ref.Sum(msg[:done]); !bytes.Equal(g, w) {
				return Errf("SM3 of the first %d bytes (writes %v): got %s, want %s", done, c.Splits[:min(i+1, len(c.Splits))], Short(g), Short(w))
			}
			x.Label("intermediate sum")
		}
	}
	if g, w := h.Sum(nil), sm3ref.Sum(msg); !bytes.Equal(g, w) {
		return Errf("SM3 of %d bytes written as %v: got %s, want %s", len(msg), c.Splits, Short(g), Short(w))
	}
	if len(msg) > 0 {
		x.NT()
	}
	return nil
}

type bigCase struct {
	Kind  string `json:"kind"`
	Chunk int    `json:"chunk"`
	Count int    `json:"count"`
	Tail  int    `json:"tail"`
}

// runBig hashes a message of Chunk*Count+Tail bytes.
func runBig(c bigCase, x *Ctx) error {
	buf := make([]byte, c.Chunk)
	NewPRNG(uint64(c.Chunk)).Fill(buf)
	if c.Kind == "sm3" {
		if c.Chunk%64 != 0 {
			return HarnessError{"chunk"}
		}
		want := make(chan []byte)
		b2 := append([]byte{}, buf...)
		go func() {
			r := sm3ref.New()
			for i := 0; i < c.Count; i++ {
				r.Blocks(b2)
			}
			want <- r.Finish(b2[:c.Tail])
		}()
		h := sm3.New()
		for i := 0; i < c.Count; i++ {
			h.Write(buf)
		}
		h.Write(buf[:c.Tail])
		g := h.Sum(nil)
		if w := <-want; !bytes.Equal(g, w) {
			return Errf("SM3 of a message of %d bytes (%d bits): got %x, want %x", int64(c.Chunk)*int64(c.Count)+int64(c.Tail), (int64(c.Chunk)*int64(c.Count)+int64(c.Tail))*8, g, w)
		}
		h.Reset()
		h.Write(buf[:c.Tail])
		if g, w := h.Sum(nil), sm3ref.Sum(buf[:c.Tail]); !bytes.Equal(g, w) {
			return Errf("SM3 of %d bytes after Reset of an object that had %d bytes: got %x, want %x", c.Tail, c.Chunk*c.Count+c.Tail, g, w)
		}
		x.NT()
		return nil
	}
	// SHA-3: one single Write of everything, one single Read
	msg := bytes.Repeat(buf, c.Count)
	msg = append(msg, buf[:c.Tail]...)
	o := makeObj(c.Kind, nil, nil)
	o.w().Write(msg)
	if o.fix != nil {
		if g, w := o.fix.Sum(nil), wantHash(c.Kind, nil, nil, msg, 0); !bytes.Equal(g, w) {
			return Errf("%s of %d bytes written at once: got %x want %x", c.Kind, len(msg), g, w)
		}
	} else {
		n := len(msg)/2 + 1
		g := make([]byte, n)
		o.xof.Read(g)
		if !bytes.Equal(g, wantHash(c.Kind, nil, nil, msg, n)) {
			return Errf("%s of %d bytes written at once, %d bytes read at once: wrong output", c.Kind, len(msg), n)
		}
	}
	o.reset()
	o.w().Write(msg[:c.Tail])
	g := make([]byte, 64)
	if o.fix != nil {
		g = o.fix.Sum(nil)
	} else {
		o.xof.Read(g)
	}
	if w := wantHash(c.Kind, nil, nil, msg[:c.Tail], 64); !bytes.Equal(g, w) {
		return Errf("%s of %d bytes after Reset of an object that had %d bytes: got %x, want %x", c.Kind, c.Tail, len(msg), g, w)
	}
	x.NT()
	return nil
}

// --- C04

type c04 struct {
	Kind string `json:"kind"`
	Key  Blob   `json:"key"`
	Msgs []Blob `json:"msgs"`
}

func genC04(t *rapid.T) c04 {
	k := rapid.SampledFrom(fixedKinds).Draw(t, "kind")
	c := c04{Kind: k, Key: DrawBlob(t, "key", drawLen(t, "kl", hashRate[k], 400))}
	n := rapid.IntRange(1, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Msgs = append(c.Msgs, DrawBlob(t, "m", drawLen(t, "ml", hashRate[k], 600)))
	}
	return c
}

// runC04 uses the hashes through standard consumers of hash.Hash.
func runC04(c c04, x *Ctx) error {
	key := c.Key.Bytes()
	bs := hashRate[c.Kind]
	k := key
	if len(k) > bs {
		k = wantHash(c.Kind, nil, nil, k, 0)
	}
	kb := make([]byte, bs)
	copy(kb, k)
	ip, op := make([]byte, bs), make([]byte, bs)
	for i := range kb {
		ip[i], op[i] = kb[i]^0x36, kb[i]^0x5c
	}
	mac := hmac.New(func() hash.Hash { return newFixed(c.Kind) }, key)
	var all []byte
	a, b := newFixed(c.Kind), newFixed(c.Kind)
	mw := io.MultiWriter(a, b)
	for i, mb := range c.Msgs {
		m := mb.Bytes()
		all = append(all, m...)
		if n, err := mac.Write(m); n != len(m) || err != nil {
			return Errf("%s: HMAC write of %d bytes returned (%d,%v)", c.Kind, len(m), n, err)
		}
		if n, err := mw.Write(m); n != len(m) || err != nil {
			return Errf("%s: MultiWriter write of %d bytes returned (%d,%v)", c.Kind, len(m), n, err)
		}
		in := wantHash(c.Kind, nil, nil, append(append([]byte{}, ip...), all...), 0)
		want := wantHash(c.Kind, nil, nil, append(append([]byte{}, op...), in...), 0)
		if g := mac.Sum(nil); !bytes.Equal(g, want) {
			return Errf("HMAC-%s with a %d-byte key after message %d: got %s, want %s", c.Kind, len(key), i, Short(g), Short(want))
		}
	}
	want := wantHash(c.Kind, nil, nil, all, 0)
	for _, h := range []hash.Hash{a, b, a} {
		if g := h.Sum(nil); !bytes.Equal(g, want) {
			return Errf("%s behind io.MultiWriter: got %s, want %s", c.Kind, Short(g), Short(want))
		}
		if h.Size() != hashSize[c.Kind] || h.BlockSize() != bs {
			return Errf("%s: Size()=%d BlockSize()=%d", c.Kind, h.Size(), h.BlockSize())
		}
	}
	mac.Reset()
	in := wantHash(c.Kind, nil, nil, ip, 0)
	want = wantHash(c.Kind, nil, nil, append(append([]byte{}, op...), in...), 0)
	if g := mac.Sum(nil); !bytes.Equal(g, want) {
		return Errf("HMAC-%s of nothing after Reset: got %s, want %s", c.Kind, Short(g), Short(want))
	}
	x.NT()
	x.Label("%s", c.Kind)
	return nil
}

func init() {
	Register(&Prop{ID: "C01", Assumptions: []string{"crypto/sha3 of the Go distribution implements FIPS 202 and SP 800-185"},
		Suites: []*Suite{
			Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "one object used more often than a small counter can tell; every result compared"}, endurHash(sha3Kinds, "writes"), runEndurHash),
			Enum(Suite{Name: "long-names", Shards: 1, CaseLimit: 300, Rule: "every case: a name or customization string whose length in bits needs one byte more than the length before"}, enumC01l(8, 16, 24, 32), runC01l),
			Enum(Suite{Name: "long-names-386", Config: "386", Shards: 1, CaseLimit: 300, Rule: "as long-names, 32-bit build"}, enumC01l(16, 24, 31), runC01l),
			Gen(Suite{Name: "split", Quick: 240000, Thorough: 2400000, Rule: "a message of at least one byte or at least one byte of output, compared with crypto/sha3"}, genC01(2500), runC01),
			Gen(Suite{Name: "split-noasm", Config: "noasm", Shards: 4, Quick: 60000, Thorough: 600000, Rule: "as split, pure Go permutation"}, genC01(1500), runC01),
			Gen(Suite{Name: "split-appengine", Config: "appengine", Shards: 4, Quick: 60000, Thorough: 600000, Rule: "as split, portable buffer handling"}, genC01(1500), runC01),
			Gen(Suite{Name: "split-386", Config: "386", Shards: 4, Quick: 60000, Thorough: 600000, Rule: "as split, 32-bit build"}, genC01(1500), runC01),
			Gen(Suite{Name: "histories", Quick: 30000, Thorough: 300000, Rule: "history with input and at least one reset, clone, sum or write-after-read"}, genHist(sha3Kinds, 14, 700, true), runHist),
			Enum(Suite{Name: "lengths", Rule: "every message length up to a bound for every function, one write; every output length"}, func(tier string, emit func(c01)) {
				max := 700
				if tier == "thorough" {
					max = 3000
				}
				for _, k := range sha3Kinds {
					for n := 0; n <= max; n++ {
						c := c01{Kind: k, Msg: Blob{Kind: "rnd", Len: n, Seed: uint64(n)}, Off: n % 16, Page: n%5 == 0}
						if _, ok := hashSize[k]; !ok {
							c.Reads = []int{n, 1}
						}
						if k[0] == 'c' {
							c.N = Blob{Kind: "rnd", Len: n % 400, Seed: uint64(n)}
							c.S = Blob{Kind: "rnd", Len: (n / 3) % 200, Seed: uint64(n)}
						}
						emit(c)
					}
				}
			}, runC01),
			Enum(Suite{Name: "custom-lengths", Rule: "every customization length around one and two block lengths, with and without function name"}, func(tier string, emit func(c01)) {
				for _, k := range []string{"cshake128", "cshake256"} {
					for _, n := range []int{1<<13 - 1, 1 << 13, 1<<16 + 1, 1<<21 - 1, 1 << 21, 1<<21 + 77} {
						emit(c01{Kind: k, N: Blob{Kind: "rnd", Len: 3, Seed: 1}, S: Blob{Kind: "rnd", Len: n, Seed: 2}, Reads: []int{40}})
						emit(c01{Kind: k, N: Blob{Kind: "rnd", Len: n, Seed: 1}, Msg: Blob{Kind: "rnd", Len: 9}, Reads: []int{40}})
					}
					for _, nl := range []int{0, 3, 32} {
						for n := 0; n <= 360; n++ {
							emit(c01{Kind: k, N: Blob{Kind: "rnd", Len: nl, Seed: 1}, S: Blob{Kind: "rnd", Len: n, Seed: 2}, Msg: Blob{Kind: "rnd", Len: n % 7}, Reads: []int{40}})
						}
					}
				}
			}, runC01),
			Enum(Suite{Name: "big", CaseLimit: 300, Rule: "megabytes in one call"}, func(tier string, emit func(bigCase)) {
				for i, k := range sha3Kinds {
					emit(bigCase{k, 4096, 300, i * 13})
				}
				emit(bigCase{"sha3-256", 1 << 20, 70, 5})
				emit(bigCase{"shake128", 1 << 20, 40, 5})
				if tier == "thorough" {
					for i, k := range sha3Kinds {
						emit(bigCase{k, 1 << 20, 64, i * 13})
					}
				}
			}, runBig),
		}})
	Register(&Prop{ID: "C02", Assumptions: []string{"crypto/sha3 of the Go distribution implements FIPS 202 and SP 800-185"},
		Suites: []*Suite{
			Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "one object used more often than a small counter can tell; every result compared"}, endurHash(xofKinds, "reads", "resets"), runEndurHash),
			Enum(Suite{Name: "large-reads", Shards: 2, CaseLimit: 600, Rule: "one request for more than 65536 blocks, or more than 2^32 bits, between small ones"}, endurLarge(xofKinds, 12<<20+5, 520<<20+77), runEndurHash),
			Enum(Suite{Name: "large-reads-noasm", Config: "noasm", CaseLimit: 600, Rule: "as large-reads, pure Go build"}, endurLarge(xofKinds, 12<<20+5), runEndurHash),
			Enum(Suite{Name: "large-reads-386", Config: "386", CaseLimit: 600, Rule: "as large-reads, 32-bit build"}, endurLarge(xofKinds, 12<<20+5, 520<<20+77), runEndurHash),
			Gen(Suite{Name: "xof", Quick: 120000, Thorough: 1200000, Rule: "history with input and at least one reset, clone or write-after-read, every step compared with a model"}, genHist(xofKinds, 30, 800, true), runHist),
			Gen(Suite{Name: "fixed", Quick: 80000, Thorough: 800000, Rule: "history with input and at least one reset or sum"}, genHist([]string{"sha3-224", "sha3-256", "sha3-384", "sha3-512"}, 30, 800, true), runHist),
			Gen(Suite{Name: "mixed-noasm", Config: "noasm", Shards: 4, Quick: 30000, Thorough: 300000, Rule: "as above on the pure Go build"}, genHist(sha3Kinds, 30, 500, true), runHist),
		}})
	Register(&Prop{ID: "C03", Assumptions: []string{"the reference is a transcription of GB/T 32905-2016 checked against its two published vectors"},
		Suites: []*Suite{
			Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "one object used more often than a small counter can tell; every result compared"}, endurHash([]string{"sm3"}, "writes", "resets"), runEndurHash),
			Gen(Suite{Name: "split", Quick: 96000, Thorough: 960000, Rule: "non-empty message, any split into writes, intermediate digests, prior Reset"}, genC03, runC03),
			Gen(Suite{Name: "split-386", Config: "386", Shards: 4, Quick: 24000, Thorough: 240000, Rule: "as split, 32-bit build"}, genC03, runC03),
			Gen(Suite{Name: "histories", Quick: 12000, Thorough: 120000, Rule: "history with input and a reset or a digest, several objects"}, genHist([]string{"sm3"}, 30, 500, false), runHist),
			Enum(Suite{Name: "lengths", Rule: "every length up to a bound, as one write and split in two"}, func(tier string, emit func(c03)) {
				for n := 1; n <= 1100; n++ {
					emit(c03{Msg: Blob{Kind: "rnd", Len: n, Seed: uint64(n)}, Page: n%3 == 0, Off: n % 16})
					emit(c03{Msg: Blob{Kind: "ff", Len: n}, Splits: []int{n / 2}, SumAt: []int{0}, Off: n % 16})
				}
			}, runC03),
			Enum(Suite{Name: "one-write", CaseLimit: 300, Rule: "messages of many megabytes in one write"}, func(tier string, emit func(bigCase)) {
				emit(bigCase{"sm3", 1 << 20, 1, 3})
				emit(bigCase{"sm3", 5 << 20, 1, 77})
				emit(bigCase{"sm3", 33 << 20, 1, 64})
				if tier == "thorough" {
					emit(bigCase{"sm3", 515 << 20, 1, 1})
				}
			}, runBig),
			Enum(Suite{Name: "long-386", Config: "386", CaseLimit: 600, Rule: "messages beyond 2^32 bits, 32-bit build"}, func(tier string, emit func(bigCase)) {
				emit(bigCase{"sm3", 1 << 20, 513, 3})
				emit(bigCase{"sm3", 1 << 20, 511, 1<<20 - 1})
				if tier == "thorough" {
					emit(bigCase{"sm3", 1 << 20, 4096, 70})
				}
			}, runBig),
			Enum(Suite{Name: "long", CaseLimit: 400, Rule: "messages around and beyond 2^32 bits"}, func(tier string, emit func(bigCase)) {
				emit(bigCase{"sm3", 1 << 20, 512, 3})
				emit(bigCase{"sm3", 1 << 20, 64, 61})
				if tier == "thorough" {
					emit(bigCase{"sm3", 1 << 20, 4096, 70})
					emit(bigCase{"sm3", 64 << 20, 9, 56})
				}
			}, runBig),
		}})
	Register(&Prop{ID: "C04",
		Suites: []*Suite{
			Enum(Suite{Name: "sums", Rule: "Sum with a non-empty prefix: every prefix length up to 640, several spare capacities"}, enumSums, runSums),
			Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "one object used more often than a small counter can tell; every result compared"}, endurHash(fixedKinds, "sums", "resets"), runEndurHash),
			Gen(Suite{Name: "contract", Quick: 140000, Thorough: 1400000, Rule: "history over several hash objects with input and at least one Sum (with prefixes of any length and capacity), Reset or io.Copy"}, genHist(fixedKinds, 30, 500, true), runHist),
			Gen(Suite{Name: "consumers", Quick: 60000, Thorough: 600000, Rule: "hashes used through crypto/hmac and io.MultiWriter"}, genC04, runC04),
			Gen(Suite{Name: "contract-386", Config: "386", Shards: 4, Quick: 30000, Thorough: 300000, Rule: "as contract, 32-bit build"}, genHist(fixedKinds, 20, 500, true), runHist),
		}})
}
