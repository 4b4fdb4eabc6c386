package checks

import (
	"bytes"
	stdaes "crypto/aes"

	"github.com/henrydcase/nobs/drbg"
	"github.com/henrydcase/nobs/utils"
	"pgregory.net/rapid"
	. "verif/core"
	"verif/ref/drbgref"
	"verif/ref/hwcpu"
)

// dop is an operation on one of several generators.
type dop struct {
	Op  string `json:"op"`
	Obj int    `json:"o"`
	N   int    `json:"n,omitempty"`
	A   Blob   `json:"a,omitempty"` // entropy, or the key to steer to
	B   Blob   `json:"b,omitempty"` // personalization / additional data
	V   Hex    `json:"v,omitempty"` // value of V to steer to
	Off int    `json:"off,omitempty"`
	Pg  bool   `json:"page,omitempty"`
}

type drbgHist struct {
	AES []bool `json:"aesni"` // per instance: hardware AES allowed
	Ops []dop  `json:"ops"`
}

func drawV(t *rapid.T) Hex {
	v := RndBlob(t, "v", 16).Bytes()
	k := rapid.IntRange(0, 16).Draw(t, "vff")
	for i := 16 - k; i < 16; i++ {
		v[i] = 0xff
	}
	if k > 0 {
		v[15] -= byte(rapid.IntRange(0, 5).Draw(t, "vlow"))
	}
	return v
}

func drawSeedLen(t *rapid.T, l string, min int) int {
	switch rapid.IntRange(0, 3).Draw(t, l+".m") {
	case 0, 1:
		return 48
	case 2:
		return rapid.IntRange(min, 48).Draw(t, l)
	}
	return rapid.SampledFrom([]int{min, 32, 33, 47, 49, 64, 100, 300}).Draw(t, l)
}

func drawADLen(t *rapid.T, l string) int {
	return rapid.SampledFrom([]int{0, 0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 48, 49, 64, 120}).Draw(t, l)
}

func drawOutLen(t *rapid.T, l string) int {
	switch rapid.IntRange(0, 4).Draw(t, l+".m") {
	case 0:
		return rapid.SampledFrom([]int{0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65}).Draw(t, l)
	case 1:
		return 16 * rapid.IntRange(0, 20).Draw(t, l)
	case 2:
		return rapid.IntRange(0, 3000).Draw(t, l)
	}
	return rapid.IntRange(0, 100).Draw(t, l)
}

func genDrbg(ops []string, minops, maxops int) func(t *rapid.T) drbgHist {
	return func(t *rapid.T) drbgHist {
		var c drbgHist
		n := rapid.IntRange(1, 3).Draw(t, "objs")
		for i := 0; i < n; i++ {
			c.AES = append(c.AES, rapid.Bool().Draw(t, "aesni"))
		}
		c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) dop {
			o := dop{Op: rapid.SampledFrom(ops).Draw(t, "op"), Obj: rapid.IntRange(0, n-1).Draw(t, "o")}
			o.Off = rapid.IntRange(0, 15).Draw(t, "off")
			o.Pg = rapid.IntRange(0, 5).Draw(t, "pg") == 0
			switch o.Op {
			case "init":
				o.A = DrawBlob(t, "entropy", drawSeedLen(t, "el", 32))
				o.B = DrawBlob(t, "pers", drawADLen(t, "pl"))
			case "initshort":
				o.A = DrawBlob(t, "entropy", rapid.IntRange(0, 31).Draw(t, "el"))
				o.B = DrawBlob(t, "pers", drawADLen(t, "pl"))
			case "reseed":
				o.A = DrawBlob(t, "entropy", drawSeedLen(t, "el", 0))
				o.B = DrawBlob(t, "ad", drawADLen(t, "pl"))
			case "steerinit", "steerreseed":
				o.A = DrawBlob(t, "key", 32)
				o.V = drawV(t)
				o.B = DrawBlob(t, "pers", drawADLen(t, "pl"))
			case "read":
				o.N = drawOutLen(t, "n")
			case "readad":
				o.N = drawOutLen(t, "n")
				o.B = DrawBlob(t, "ad", drawADLen(t, "al"))
			}
			return o
		}), minops, maxops).Draw(t, "ops")
		return c
	}
}

func newDrbg(aesni bool) *drbg.CtrDrbg {
	old := utils.X86.HasAES
	if old == (aesni && hwcpu.Flags().AES) {
		return drbg.NewCtrDrbg() // nothing to write: this may run concurrently
	}
	defer func() { utils.X86.HasAES = old }()
	utils.X86.HasAES = aesni && hwcpu.Flags().AES
	return drbg.NewCtrDrbg()
}

type dinst struct {
	d    *drbg.CtrDrbg
	m    drbgref.D
	init bool // successfully initialised with enough entropy
	any  bool // Init was called and accepted
}

func blobOrNil(b Blob) []byte {
	if b.Len == 0 && b.Seed%2 == 0 {
		return nil
	}
	return b.Bytes()
}

func runDrbg(c drbgHist, x *Ctx) error {
	var in []*dinst
	for _, a := range c.AES {
		in = append(in, &dinst{d: newDrbg(a)})
	}
	outBytes, reinit := 0, false
	for i, op := range c.Ops {
		s := in[op.Obj%len(in)]
		if !s.any && op.Op != "init" && op.Op != "initshort" && op.Op != "steerinit" {
			op = dop{Op: "init", Obj: op.Obj, A: Blob{Kind: "rnd", Len: 48, Seed: uint64(i)}, B: op.B}
		}
		if s.any && !s.init && op.Op != "init" && op.Op != "steerinit" {
			op = dop{Op: "init", Obj: op.Obj, A: Blob{Kind: "rnd", Len: 48, Seed: uint64(i)}, B: op.B}
		}
		a, b := blobOrNil(op.A), blobOrNil(op.B)
		steer := func(base drbgref.D) {
			// choose the entropy so that key and V come out as wanted
			target := append(append([]byte{}, op.A.Bytes()...), op.V...)
			cp := base
			zero := make([]byte, 48)
			cp.Reseed(zero, nil)
			a = make([]byte, 48)
			copy(a, cp.Key[:])
			copy(a[32:], cp.V[:])
			for j := range a {
				a[j] ^= target[j]
				if j < len(b) {
					a[j] ^= b[j]
				}
			}
		}
		switch op.Op {
		case "steerinit":
			steer(drbgref.D{})
			x.Label("steered")
		case "steerreseed":
			steer(s.m)
			x.Label("steered")
		}
		fa, fb := Freeze("entropy", a), Freeze("personalization/additional data", b)
		switch op.Op {
		case "init", "initshort", "steerinit":
			ok := s.d.Init(a, b)
			if len(a) >= 32 {
				if !ok {
					return Errf("op %d: Init with %d bytes of entropy was refused", i, len(a))
				}
				if s.init {
					reinit = true
					x.Label("reinit")
				}
				s.init, s.any = true, true
				s.m.Init(a, b)
				break
			}
			if ok {
				if s.init {
					return Errf("op %d: Init of a running generator accepted %d bytes of entropy (32 needed)", i, len(a))
				}
				if !s.any {
					if err := x.Known("first-init-short-entropy", "first Init accepts %d bytes of entropy, 32 are needed", len(a)); err != nil {
						return Errf("op %d: %v", i, err)
					}
				} else {
					return Errf("op %d: repeated Init accepted %d bytes of entropy (32 needed)", i, len(a))
				}
				s.any = true
			} else {
				x.Label("short refused")
				reinit = reinit || s.init
			}
		case "reseed", "steerreseed":
			s.d.Reseed(a, b)
			s.m.Reseed(a, b)
			x.Label("reseed")
		case "read", "readad":
			var out []byte
			var g *Guard
			if op.Pg {
				p := NewPage(op.N)
				defer p.Free()
				out = p.B
			} else {
				g = NewGuard(op.N, op.Off)
				out = g.BCap()
			}
			var n int
			var err error
			if op.Op == "read" {
				b = nil
				n, err = s.d.Read(out)
			} else {
				n, err = s.d.ReadWithAdditionalData(out, b)
			}
			if n != op.N || err != nil {
				return Errf("op %d: read of %d bytes returned (%d, %v)", i, op.N, n, err)
			}
			if g != nil {
				if err := g.Check(op.N); err != nil {
					return Errf("op %d: %v", i, err)
				}
			}
			want := s.m.Generate(op.N, b)
			if !bytes.Equal(out, want) {
				j := 0
				for out[j] == want[j] {
					j++
				}
				return Errf("op %d (aesni=%v): %s of %d bytes with %d bytes of additional data: output differs from SP 800-90A at byte %d: got %s, want %s",
					i, c.AES[op.Obj%len(in)], op.Op, op.N, len(b), j, Short(out[j:]), Short(want[j:]))
			}
			outBytes += op.N
		}
		if err := fa.Check(); err != nil {
			return Errf("op %d (%s): %v", i, op.Op, err)
		}
		if err := fb.Check(); err != nil {
			return Errf("op %d (%s): %v", i, op.Op, err)
		}
		// inputs must not be remembered
		for j := range a {
			a[j] ^= 0xff
		}
		for j := range b {
			b[j] ^= 0xff
		}
	}
	for i, s := range in {
		if !s.init {
			continue
		}
		out := make([]byte, 33)
		s.d.Read(out)
		if w := s.m.Generate(33, nil); !bytes.Equal(out, w) {
			return Errf("at the end: generator %d: got %x want %x", i, out, w)
		}
	}
	if outBytes > 0 || reinit {
		x.NT()
	}
	return nil
}

// --- AES

type aesCipher interface {
	SetKey(key []byte) error
	Encrypt(dst, src []byte)
	Decrypt(dst, src []byte)
}

var aesGo, aesAsm func() aesCipher

type aesOp struct {
	Op    string `json:"op"`
	Obj   int    `json:"o"`
	B     Blob   `json:"b"`
	Off   int    `json:"off"`
	Len   int    `json:"len,omitempty"`
	Alias string `json:"alias,omitempty"`
}
type aesHist struct {
	Asm []bool  `json:"asm"`
	Ops []aesOp `json:"ops"`
}

func genAES(t *rapid.T) aesHist {
	var c aesHist
	n := rapid.IntRange(1, 2).Draw(t, "objs")
	for i := 0; i < n; i++ {
		c.Asm = append(c.Asm, rapid.Bool().Draw(t, "asm"))
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) aesOp {
		o := aesOp{Op: rapid.SampledFrom([]string{"key", "key", "enc", "enc", "enc", "dec", "dec", "dec", "badkey", "short"}).Draw(t, "op"), Obj: rapid.IntRange(0, n-1).Draw(t, "o")}
		o.Off = rapid.IntRange(0, 15).Draw(t, "off")
		switch o.Op {
		case "key":
			o.B = DrawBlob(t, "key", rapid.SampledFrom([]int{16, 24, 32}).Draw(t, "kl"))
		case "badkey":
			o.B = DrawBlob(t, "key", rapid.SampledFrom([]int{0, 1, 8, 15, 17, 20, 23, 25, 28, 31, 33, 40, 48, 64, 128, 192, 256}).Draw(t, "kl"))
		case "enc", "dec":
			o.Len = rapid.SampledFrom([]int{16, 16, 17, 31, 32, 64}).Draw(t, "len")
			o.B = DrawBlob(t, "blk", o.Len)
			o.Alias = rapid.SampledFrom([]string{"no", "no", "same", "overlap", "overlaprev", "adjacent", "adjacentrev", "page"}).Draw(t, "alias")
		case "short":
			o.Len = rapid.IntRange(0, 15).Draw(t, "len")
			o.Alias = rapid.SampledFrom([]string{"src", "dst", "dsrc", "ddst"}).Draw(t, "which")
		}
		return o
	}), 4, 16).Draw(t, "ops")
	return c
}

func runAES(c aesHist, x *Ctx) error {
	type inst struct {
		c   aesCipher
		key []byte
		nk  int
	}
	var in []*inst
	for _, a := range c.Asm {
		i := &inst{}
		if a && hwOrSoft() {
			i.c = aesAsm()
			x.Label("asm type")
		} else {
			i.c = aesGo()
			x.Label("generic type")
		}
		in = append(in, i)
	}
	for i, op := range c.Ops {
		s := in[op.Obj%len(in)]
		where := func() string {
			return "AES with a " + map[int]string{16: "128", 24: "192", 32: "256"}[len(s.key)] + "-bit key"
		}
		switch op.Op {
		case "key":
			p := PageOf(op.B.Bytes())
			if err := s.c.SetKey(p.B); err != nil {
				p.Free()
				return Errf("op %d: SetKey of %d bytes: %v", i, op.B.Len, err)
			}
			if !bytes.Equal(p.B, op.B.Bytes()) {
				return Errf("op %d: SetKey modified the key", i)
			}
			p.Free() // the key must have been copied
			s.key = op.B.Bytes()
			s.nk++
			if s.nk > 1 {
				x.Label("rekeyed")
			}
		case "badkey":
			var err error
			if cgt := Try(func() { err = s.c.SetKey(op.B.Bytes()) }); cgt.Panicked {
				return Errf("op %d: SetKey of %d bytes panics (%v) instead of returning an error", i, op.B.Len, cgt.Val)
			}
			if err == nil {
				return Errf("op %d: SetKey accepted a key of %d bytes", i, op.B.Len)
			}
			x.Label("bad key refused")
		case "enc", "dec":
			if s.key == nil {
				continue
			}
			std, err := stdaes.NewCipher(s.key)
			if err != nil {
				return HarnessError{err.Error()}
			}
			f, sf := s.c.Encrypt, std.Encrypt
			if op.Op == "dec" {
				f, sf = s.c.Decrypt, std.Decrypt
			}
			src := op.B.Bytes()
			want := make([]byte, 16)
			sf(want, src[:16])
			switch op.Alias {
			case "overlap", "overlaprev":
				g := NewGuard(96, op.Off)
				d := 1 + op.Off%15
				bd, bs := g.B()[d:d+op.Len%17+16], g.B()[:16+op.Len%16]
				if op.Alias == "overlaprev" {
					bd, bs = bs, bd
				}
				cgt := Try(func() { f(bd, bs) })
				if !cgt.Panicked {
					return Errf("op %d: %s: partially overlapping buffers accepted", i, op.Op)
				}
				if err := g.Check(0); err != nil {
					return Errf("op %d: refused call changed memory: %v", i, err)
				}
				x.Label("overlap refused")
			case "adjacent", "adjacentrev":
				// the blocks are neighbours; the slices may reach further, only
				// their first blocks count
				g := NewGuard(32, op.Off)
				bd, bs := g.B()[:16], g.B()[16:]
				if op.Alias == "adjacentrev" {
					bd, bs = bs[:16], g.B()[:16]
				}
				if op.Len > 16 {
					bd, bs = bd[:16+(op.Len-16)%17%(cap(bd)-15)], bs[:16+(op.Len-16)%17%(cap(bs)-15)]
				}
				copy(bs[:16], src)
				cgt := Try(func() { f(bd, bs) })
				if cgt.Panicked {
					return Errf("op %d: %s: neighbouring blocks refused: %v", i, op.Op, cgt.Val)
				}
				if !bytes.Equal(bd[:16], want) || !bytes.Equal(bs[:16], src[:16]) {
					return Errf("op %d: %s %s into the neighbouring block: got %x want %x (source %x, was %x)", i, where(), op.Op, bd[:16], want, bs[:16], src[:16])
				}
				if err := g.Check(32); err != nil {
					return Errf("op %d: %v", i, err)
				}
				x.NT()
				x.Label("neighbouring blocks")
			case "same":
				g := NewGuard(op.Len, op.Off)
				copy(g.B(), src)
				f(g.B(), g.B())
				if !bytes.Equal(g.B()[:16], want) || !bytes.Equal(g.B()[16:], src[16:]) {
					return Errf("op %d: %s %s in place: got %x want %x", i, where(), op.Op, g.B(), append(want, src[16:]...))
				}
				if err := g.Check(op.Len); err != nil {
					return Errf("op %d: %v", i, err)
				}
				x.NT()
			case "page":
				ps, pd := PageOf(src), NewPage(16)
				f(pd.B, ps.B)
				ok := bytes.Equal(pd.B, want) && bytes.Equal(ps.B, src)
				ps.Free()
				pd.Free()
				if !ok {
					return Errf("op %d: %s %s: wrong result", i, where(), op.Op)
				}
				x.NT()
			default:
				g := NewGuard(op.Len, op.Off)
				gs := NewGuard(op.Len, op.Off/2)
				copy(gs.B(), src)
				f(g.BCap(), gs.BCap())
				if !bytes.Equal(g.B()[:16], want) {
					return Errf("op %d: %s %s: got %x want %x", i, where(), op.Op, g.B()[:16], want)
				}
				if err := g.Check(16); err != nil {
					return Errf("op %d: %s: %v", i, op.Op, err)
				}
				if !bytes.Equal(gs.B(), src) {
					return Errf("op %d: %s modified its source", i, op.Op)
				}
				x.NT()
			}
		case "short":
			if s.key == nil {
				continue
			}
			// a short slice stays short whatever its capacity
			gsh, gok := NewGuard(op.Len, op.Off), NewGuard(16, op.Off/2)
			sh, ok := gsh.B(), gok.B()
			if op.Off&1 == 0 {
				sh, ok = gsh.BCap(), gok.BCap()
			}
			var cgt Caught
			switch op.Alias {
			case "src":
				cgt = Try(func() { s.c.Encrypt(ok, sh) })
			case "dst":
				cgt = Try(func() { s.c.Encrypt(sh, ok) })
			case "dsrc":
				cgt = Try(func() { s.c.Decrypt(ok, sh) })
			default:
				cgt = Try(func() { s.c.Decrypt(sh, ok) })
			}
			if err := gsh.Check(0); err != nil {
				return Errf("op %d: %d-byte block (%s): %v", i, op.Len, op.Alias, err)
			}
			if !cgt.Panicked {
				return Errf("op %d: %d-byte block accepted (%s)", i, op.Len, op.Alias)
			}
			if err := gok.Check(0); err != nil {
				return Errf("op %d: refused %s: %v", i, op.Alias, err)
			}
			x.Label("short block refused")
		}
	}
	return nil
}

// hwOrSoft says if AESAsm may be used: either the CPU has AES-NI or the type
// is not backed by assembly in this build.
func hwOrSoft() bool { f := hwcpu.Flags(); return !f.Known || f.AES }

// aesBlock reads AES-256(key, pt) out of a generator steered to that key.
type aesBlock struct {
	AES bool `json:"aesni"`
	Key Blob `json:"key"`
	Pt  Blob `json:"pt"`
	N   int  `json:"n"`
}

func genAESBlock(t *rapid.T) aesBlock {
	return aesBlock{rapid.Bool().Draw(t, "aesni"), DrawBlob(t, "key", 32), DrawBlob(t, "pt", 16), rapid.IntRange(1, 4).Draw(t, "n")}
}

func runAESBlock(c aesBlock, x *Ctx) error {
	d := newDrbg(c.AES)
	var m drbgref.D
	m.Reseed(make([]byte, 48), nil)
	e := append(append([]byte{}, m.Key[:]...), m.V[:]...)
	for i, v := range append(c.Key.Bytes(), c.Pt.Bytes()...) {
		e[i] ^= v
	}
	if !d.Init(e, nil) {
		return Errf("Init refused 48 bytes of entropy")
	}
	out := make([]byte, 16*c.N)
	d.Read(out)
	std, _ := stdaes.NewCipher(c.Key.Bytes())
	v := c.Pt.Bytes()
	for i := 0; i < c.N; i++ {
		for j := 15; j >= 0; j-- {
			v[j]++
			if v[j] != 0 {
				break
			}
		}
		w := make([]byte, 16)
		std.Encrypt(w, v)
		if !bytes.Equal(w, out[16*i:16*i+16]) {
			return Errf("AES-256 (aesni=%v) of %x under key %x: got %x want %x", c.AES, v, c.Key.Bytes(), out[16*i:16*i+16], w)
		}
	}
	x.NT()
	return nil
}

func init() {
	all := []string{"init", "initshort", "reseed", "steerinit", "steerreseed", "read", "read", "read", "readad", "readad"}
	valid := []string{"init", "reseed", "steerinit", "steerreseed", "read", "read", "read", "readad", "readad"}
	ini := []string{"init", "initshort", "initshort", "steerinit", "read", "readad", "reseed"}
	asm := []string{"crypto/aes of the Go distribution implements FIPS 197"}
	Register(&Prop{ID: "C05", Assumptions: asm, Suites: []*Suite{
		Enum(Suite{Name: "requests", CaseLimit: 400, Rule: "requests of all sizes up to the 65536 bytes that SP 800-90A allows"}, endurDrbg("requests", 60), runEndurDrbg),
		Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "one object used more often than a small counter can tell; every result compared"}, endurDrbg("reads", 1100000), runEndurDrbg),
		Gen(Suite{Name: "history", Quick: 96000, Thorough: 960000, Rule: "history that produced output, compared with an SP 800-90A model after every read; both AES implementations"}, genDrbg(valid, 2, 20), runDrbg),
		Gen(Suite{Name: "history-noasm", Config: "noasm", Shards: 4, Quick: 24000, Thorough: 240000, Rule: "as history, build without assembly"}, genDrbg(valid, 2, 20), runDrbg),
		Gen(Suite{Name: "history-386", Config: "386", Shards: 4, Quick: 24000, Thorough: 240000, Rule: "as history, 32-bit build"}, genDrbg(valid, 2, 20), runDrbg),
	}})
	Register(&Prop{ID: "C06", Assumptions: asm, Suites: []*Suite{
		Enum(Suite{Name: "endurance", CaseLimit: 400, Rule: "one object used more often than a small counter can tell; every result compared"}, endurDrbg("reseeds", 1100000), runEndurDrbg),
		Gen(Suite{Name: "reinit", Quick: 96000, Thorough: 960000, Rule: "history with output or with an Init of a running generator (accepted or refused)"}, genDrbg(ini, 3, 14), runDrbg),
		Gen(Suite{Name: "reinit-mixed", Quick: 48000, Thorough: 480000, Rule: "as reinit with every operation"}, genDrbg(all, 6, 24), runDrbg),
		Enum(Suite{Name: "entropy-lengths", Rule: "every entropy length 0..100 for first and repeated Init"}, func(tier string, emit func(drbgHist)) {
			for n := 0; n <= 100; n++ {
				for k := 0; k < 4; k++ {
					h := drbgHist{AES: []bool{k&1 == 0}}
					e := dop{Op: "init", A: Blob{Kind: "rnd", Len: n, Seed: uint64(n)*2 + 1}, B: Blob{Kind: "rnd", Len: n / 2, Seed: 3}}
					if n < 32 {
						e.Op = "initshort"
					}
					if k&2 != 0 {
						h.Ops = append(h.Ops, dop{Op: "init", A: Blob{Kind: "rnd", Len: 48, Seed: 5}}, dop{Op: "read", N: 40}, e, dop{Op: "read", N: 40})
					} else {
						h.Ops = append(h.Ops, e)
						if n >= 32 {
							h.Ops = append(h.Ops, dop{Op: "read", N: 40})
						}
					}
					emit(h)
				}
			}
		}, runDrbg),
	}})
	Register(&Prop{ID: "C07", Assumptions: asm, Suites: []*Suite{
		Enum(Suite{Name: "endurance", CaseLimit: 400, Hook: "hk_aes", Rule: "one object used more often than a small counter can tell; every result compared"}, endurAES, runEndurAES),
		Gen(Suite{Name: "history", Hook: "hk_aes", Quick: 240000, Thorough: 2400000, Rule: "history of key changes and block operations on both implementations with at least one block compared with crypto/aes"}, genAES, runAES),
		Gen(Suite{Name: "history-noasm", Hook: "hk_aes", Config: "noasm", Shards: 4, Quick: 48000, Thorough: 480000, Rule: "as history, build without assembly"}, genAES, runAES),
		Gen(Suite{Name: "history-386", Hook: "hk_aes", Config: "386", Shards: 4, Quick: 48000, Thorough: 480000, Rule: "as history, 32-bit build"}, genAES, runAES),
		Enum(Suite{Name: "key-lengths", Hook: "hk_aes", Rule: "every key length up to 320 bytes, before and after a good key, on both implementations"}, func(tier string, emit func(aesHist)) {
			for n := 0; n <= 320; n++ {
				for _, asm := range []bool{false, true} {
					kl := []int{16, 24, 32}[n%3]
					blk := Blob{Kind: "rnd", Len: 16, Seed: uint64(n)}
					k := aesOp{Op: "badkey", B: Blob{Kind: "rnd", Len: n, Seed: 7}}
					if n == 16 || n == 24 || n == 32 {
						k.Op = "key"
					}
					emit(aesHist{Asm: []bool{asm}, Ops: []aesOp{k, {Op: "key", B: Blob{Kind: "rnd", Len: kl, Seed: uint64(n) + 1}},
						{Op: "enc", Len: 16, B: blk}, k, {Op: "enc", Len: 16, B: blk}, {Op: "dec", Len: 16, B: blk}}})
				}
			}
		}, runAES),
		Gen(Suite{Name: "through-drbg", Quick: 64000, Thorough: 640000, Rule: "AES-256 of a chosen key and block read out of a steered CTR_DRBG, both implementations"}, genAESBlock, runAESBlock),
	}})
}
