package checks

import (
	"bytes"
	stdaes "crypto/aes"
	"runtime"
	"runtime/debug"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	. "verif/core"
	"verif/ref/drbgref"
	sr "verif/ref/sidhref"
)

// Histories that are long rather than varied: one object is used more often
// than a counter of one or two bytes can tell, and sources of randomness that
// deliver nothing usable for a while.

type endur struct {
	What string `json:"what"`
	Kind string `json:"kind,omitempty"`
	N    int    `json:"n"`
	Seed uint64 `json:"seed"`
}

// c01l: names and customization strings whose length in bits needs 16, 24, 32
// and more bits.
type c01l struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	S    int    `json:"s"`
}

func enumC01l(bits ...int) func(string, func(c01l)) {
	return func(tier string, emit func(c01l)) {
		for i, b := range bits {
			k := []string{"cshake128", "cshake256"}[i%2]
			emit(c01l{k, 1 << uint(b-3), i})
			if b < 30 || tier == "thorough" {
				emit(c01l{k, i, 1 << uint(b-3)})
				emit(c01l{k, 1<<uint(b-3) - 1, i})
			}
		}
	}
}

func runC01l(c c01l, x *Ctx) error {
	str := func(n int) []byte {
		b := make([]byte, n)
		for i := 0; i < n; i += 4099 {
			b[i] = byte(i)
		}
		return b
	}
	fn, cs, msg, out := str(c.N), str(c.S), []byte("message"), make([]byte, 64)
	o := makeObj(c.Kind, fn, cs)
	o.w().Write(msg)
	o.xof.Read(out)
	o = nil
	runtime.GC()
	want := wantHash(c.Kind, fn, cs, msg, len(out))
	fn, cs = nil, nil
	debug.FreeOSMemory()
	if !bytes.Equal(out, want) {
		return Errf("%s with a name of %d and a customization string of %d bytes: got %s want %s", c.Kind, c.N, c.S, Short(out), Short(want))
	}
	x.NT()
	return nil
}

// runEndurHash: N small writes, N digests (or N small reads), N resets.
func runEndurHash(c endur, x *Ctx) error {
	p := NewPRNG(c.Seed)
	fn, cs := []byte("fn"), []byte("customization")
	if c.Kind == "shake128" || c.Kind == "shake256" {
		fn, cs = nil, nil
	}
	o := makeObj(c.Kind, fn, cs)
	want := func(msg []byte, n int) []byte { return wantHash(c.Kind, fn, cs, msg, n) }
	switch c.What {
	case "writes":
		var msg []byte
		for i := 0; i < c.N; i++ {
			b := make([]byte, p.Intn(3))
			p.Fill(b)
			if n, err := o.w().Write(b); n != len(b) || err != nil {
				return Errf("%s: write %d returned (%d, %v)", c.Kind, i, n, err)
			}
			msg = append(msg, b...)
		}
		var got []byte
		if o.fix != nil {
			got = o.fix.Sum(nil)
		} else {
			got = make([]byte, 100)
			o.xof.Read(got)
		}
		if w := want(msg, 100); !bytes.Equal(got, w) {
			return Errf("%s after %d writes: got %s want %s", c.Kind, c.N, Short(got), Short(w))
		}
	case "reads":
		o.w().Write([]byte("abc"))
		var got []byte
		for i := 0; i < c.N; i++ {
			b := make([]byte, p.Intn(3))
			if n, err := o.xof.Read(b); n != len(b) || err != nil {
				return Errf("%s: read %d returned (%d, %v)", c.Kind, i, n, err)
			}
			got = append(got, b...)
		}
		if w := want([]byte("abc"), len(got)); !bytes.Equal(got, w) {
			i := 0
			for got[i] == w[i] {
				i++
			}
			return Errf("%s: %d small reads: output differs from byte %d on", c.Kind, c.N, i)
		}
	case "large": // one request for very much output between small ones
		pre, post := make([]byte, p.Intn(200)), make([]byte, 1+p.Intn(300))
		o.w().Write([]byte("abc"))
		big := make([]byte, c.N)
		for i, b := range [][]byte{pre, big, post} {
			if n, err := o.xof.Read(b); n != len(b) || err != nil {
				return Errf("%s: read %d of %d bytes returned (%d, %v)", c.Kind, i, len(b), n, err)
			}
		}
		ref := wantXof(c.Kind, fn, cs)
		ref.Write([]byte("abc"))
		off := 0
		chunk := make([]byte, 1<<20)
		for i, b := range [][]byte{pre, big, post} {
			for len(b) > 0 {
				w := chunk[:min(len(b), len(chunk))]
				ref.Read(w)
				if !bytes.Equal(b[:len(w)], w) {
					j := 0
					for b[j] == w[j] {
						j++
					}
					return Errf("%s: reads of %d, %d and %d bytes: read %d differs at byte %d of the output", c.Kind, len(pre), len(big), len(post), i, off+j)
				}
				b = b[len(w):]
				off += len(w)
			}
		}
	case "sums":
		o.w().Write([]byte("abc"))
		w := want([]byte("abc"), 0)
		for i := 0; i < c.N; i++ {
			if g := o.fix.Sum(nil); !bytes.Equal(g, w) {
				return Errf("%s: digest %d of the same message is %x, want %x", c.Kind, i, g, w)
			}
		}
	case "resets":
		var msgs, wants [][]byte
		for i := 0; i < 7; i++ {
			m := make([]byte, i*i*9)
			p.Fill(m)
			msgs, wants = append(msgs, m), append(wants, want(m, 70))
		}
		for i := 0; i < c.N; i++ {
			if o.fix != nil {
				o.fix.Reset()
			} else {
				o.xof.Reset()
			}
			o.w().Write(msgs[i%7])
			var g []byte
			if o.fix != nil {
				g = o.fix.Sum(nil)
			} else {
				g = make([]byte, 70)
				o.xof.Read(g)
			}
			if !bytes.Equal(g, wants[i%7]) {
				return Errf("%s after %d resets: got %s want %s", c.Kind, i+1, Short(g), Short(wants[i%7]))
			}
		}
	}
	x.NT()
	return nil
}

func endurHash(kinds []string, what ...string) func(tier string, emit func(endur)) {
	return func(tier string, emit func(endur)) {
		n := 1100000
		if tier == "thorough" {
			n = 17000000
		}
		for _, k := range kinds {
			for i, w := range what {
				emit(endur{What: w, Kind: k, N: n, Seed: seedBase() + uint64(i)})
			}
		}
	}
}

// endurLarge: one request for many blocks, or more bits than 32 bits can tell.
func endurLarge(kinds []string, sizes ...int) func(tier string, emit func(endur)) {
	return func(tier string, emit func(endur)) {
		for i, k := range kinds {
			for _, n := range sizes {
				if n > 100<<20 && i > 0 && tier != "thorough" {
					continue
				}
				emit(endur{What: "large", Kind: k, N: n, Seed: seedBase() + uint64(i)})
			}
		}
	}
}

// runEndurDrbg: a generator used very often, and large requests.
func runEndurDrbg(c endur, x *Ctx) error {
	p := NewPRNG(c.Seed)
	d := newDrbg(c.Kind == "aesni")
	var m drbgref.D
	e := make([]byte, 48)
	p.Fill(e)
	if !d.Init(e, nil) {
		return Errf("Init refused 48 bytes of entropy")
	}
	m.Init(e, nil)
	read := func(i, n int, ad []byte) error {
		g := make([]byte, n)
		if k, err := d.ReadWithAdditionalData(g, ad); k != n || err != nil {
			return Errf("read %d of %d bytes returned (%d, %v)", i, n, k, err)
		}
		if w := m.Generate(n, ad); !bytes.Equal(g, w) {
			j := 0
			for g[j] == w[j] {
				j++
			}
			return Errf("read %d (%s, %d bytes): differs from SP 800-90A at byte %d", i, c.Kind, n, j)
		}
		return nil
	}
	switch c.What {
	case "reads":
		for i := 0; i < c.N; i++ {
			if err := read(i, p.Intn(20), e[:p.Intn(2)*(i%7)]); err != nil {
				return err
			}
		}
	case "requests":
		// all request sizes that SP 800-90A allows are fine
		for i, n := range []int{2047, 2048, 2049, 4079, 4080, 4081, 4095, 4096, 4097, 4112, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65519, 65520, 65521, 65535, 65536} {
			if err := read(i, n, nil); err != nil {
				return err
			}
			if err := read(i, n-5-p.Intn(17), e[:i]); err != nil {
				return err
			}
		}
		for i := 0; i < c.N; i++ {
			if err := read(i, p.Intn(65537), nil); err != nil {
				return err
			}
		}
	case "reseeds":
		for i := 0; i < c.N; i++ {
			p.Fill(e)
			switch p.Intn(3) {
			case 0:
				if !d.Init(e, e[:i%48]) {
					return Errf("Init %d refused 48 bytes of entropy", i)
				}
				m.Init(e, e[:i%48])
			default:
				d.Reseed(e, e[:i%48])
				m.Reseed(e, e[:i%48])
			}
			if i%16 == 0 || i > c.N-40 {
				if err := read(i, 1+p.Intn(20), nil); err != nil {
					return err
				}
			}
		}
	}
	x.NT()
	return nil
}

func endurDrbg(what string, n int) func(tier string, emit func(endur)) {
	return func(tier string, emit func(endur)) {
		n := n
		if tier == "thorough" {
			n *= 16
		}
		for _, k := range []string{"aesni", "generic"} {
			emit(endur{What: what, Kind: k, N: n, Seed: seedBase()})
		}
	}
}

// runEndurAES: one cipher object, re-keyed or used very often.
func runEndurAES(c endur, x *Ctx) error {
	p := NewPRNG(c.Seed)
	a := aesGo()
	if c.Kind == "aesni" && hwOrSoft() {
		a = aesAsm()
	}
	key, blk, got, want := make([]byte, 32), make([]byte, 16), make([]byte, 16), make([]byte, 16)
	p.Fill(key)
	k := key
	if err := a.SetKey(k); err != nil {
		return Errf("SetKey: %v", err)
	}
	for i := 0; i < c.N; i++ {
		if c.What == "keys" {
			p.Fill(key)
			k = key[:[]int{16, 24, 32}[p.Intn(3)]]
			if err := a.SetKey(k); err != nil {
				return Errf("SetKey %d: %v", i, err)
			}
		}
		std, err := stdaes.NewCipher(k)
		if err != nil {
			return HarnessError{err.Error()}
		}
		p.Fill(blk)
		if a.Encrypt(got, blk); i&1 == 0 {
			std.Encrypt(want, blk)
		} else {
			a.Decrypt(got, blk)
			std.Decrypt(want, blk)
		}
		if !bytes.Equal(got, want) {
			return Errf("%s: block %d: got %x want %x", c.Kind, i, got, want)
		}
	}
	x.NT()
	return nil
}

func endurAES(tier string, emit func(endur)) {
	n := 1100000
	if tier == "thorough" {
		n = 17000000
	}
	for _, k := range []string{"aesni", "generic"} {
		emit(endur{What: "keys", Kind: k, N: n, Seed: seedBase()})
		emit(endur{What: "blocks", Kind: k, N: n, Seed: seedBase()})
	}
}

// runEndurCsidhGen: private keys made in one object again and again, and from
// sources which deliver bytes that can't be used for long.
func runEndurCsidhGen(c endur, x *Ctx) error {
	var k csidh.PrivateKey
	if c.What == "objects" {
		for i := 0; i < c.N; i++ {
			var f csidh.PrivateKey
			if err := csidh.GeneratePrivateKey(&k, GoodRNG(c.Seed+uint64(i)).New()); err != nil {
				return Errf("key %d: %v", i, err)
			}
			if err := csidh.GeneratePrivateKey(&f, GoodRNG(c.Seed+uint64(i)).New()); err != nil {
				return Errf("key %d: %v", i, err)
			}
			if !bytes.Equal(skBytes(&k), skBytes(&f)) {
				return Errf("key %d: made in a used object %x, in a fresh one %x", i, skBytes(&k), skBytes(&f))
			}
		}
		x.NT()
		return nil
	}
	var got [2][]byte
	for j := range got {
		r := GoodRNG(c.Seed + uint64(j))
		r.Prefix = []Blob{RawBlob(bytes.Repeat([]byte{0x40 + byte(c.N%3)}, c.N))}
		if err := csidh.GeneratePrivateKey(&k, r.New()); err != nil {
			return Errf("the source delivers %d unusable bytes first: %v", c.N, err)
		}
		got[j] = skBytes(&k)
		for i, v := range unpackExps(got[j]) {
			if v < -5 || v > 5 {
				return Errf("the source delivers %d unusable bytes first: exponent %d is %d", c.N, i, v)
			}
		}
	}
	if bytes.Equal(got[0], got[1]) {
		return Errf("the source delivers %d unusable bytes first: the key doesn't depend on what follows", c.N)
	}
	x.NT()
	return nil
}

func endurCsidhGen(tier string, emit func(endur)) {
	emit(endur{What: "objects", N: 66000, Seed: seedBase()})
	for _, n := range []int{73, 74, 75, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 640, 1000, 1024, 2000, 4096} {
		emit(endur{What: "patience", N: n, Seed: seedBase()})
	}
}

// runEndurCsidh: one private key derives secrets over and over.
func runEndurCsidh(c endur, x *Ctx) error {
	var peers [3]csidh.PublicKey
	var want, out [64]byte
	var wants [3][64]byte
	// the last exponents share a byte of the key; both are in use
	exps := skSpec{"single", c.Seed}.exps()
	exps[72], exps[73] = 1, -1
	sk := importSk(exps)
	for i := range peers {
		csidh.GeneratePublicKey(&peers[i], importSk(skSpec{"single", c.Seed + 7*uint64(i)}.exps()), GoodRNG(uint64(i)).New())
		if !csidh.DeriveSecret(&wants[i], &peers[i], importSk(exps), GoodRNG(uint64(i)).New()) {
			return Errf("honest key refused")
		}
	}
	good := GoodRNG(c.Seed)
	good.Budget = 1 << 30
	rng := good.New()
	var pub, pubFresh csidh.PublicKey
	csidh.GeneratePublicKey(&pubFresh, importSk(exps), GoodRNG(1).New())
	for i := 0; i < c.N; i++ {
		if csidh.GeneratePublicKey(&pub, sk, rng); !bytes.Equal(pubBytes(&pub), pubBytes(&pubFresh)) {
			return Errf("public key %d made from one private key is %s, of fresh objects %s", i, Short(pubBytes(&pub)), Short(pubBytes(&pubFresh)))
		}
		want = wants[i%3]
		if !csidh.DeriveSecret(&out, &peers[i%3], sk, rng) {
			return Errf("derivation %d refuses an honest key", i)
		}
		if out != want {
			return Errf("derivation %d gives %s, a fresh object %s", i, Short(out[:]), Short(want[:]))
		}
	}
	x.NT()
	return nil
}

// runEndurSidh: keys made in one object again and again.
func runEndurSidh(c endur, x *Ctx) error {
	for _, set := range []int{434, 503, 751} {
		for _, v := range []sidh.KeyVariant{sidh.KeyVariantSidhA, sidh.KeyVariantSidhB, sidh.KeyVariantSike} {
			k := sidh.NewPrivateKey(sidhIDs[set], v)
			good := GoodRNG(c.Seed)
			good.Budget = 1 << 30
			r := good.New()
			b, last := make([]byte, k.Size()), make([]byte, k.Size())
			side := 1
			if v == sidh.KeyVariantSidhA {
				side = 0
			}
			s := sr.ByName(set)
			for i := 0; i < c.N; i++ {
				if c.What == "gen" {
					if err := k.Generate(r); err != nil {
						return Errf("p%d: key %d: %v", set, i, err)
					}
					k.Export(b)
					if err := inKeySpace(s, side, b[len(b)-s.Bytes[side]:]); err != nil {
						return Errf("p%d: key %d: %v", set, i, err)
					}
					if bytes.Equal(b, last) {
						return Errf("p%d: key %d repeats", set, i)
					}
				} else {
					r.Read(last)
					if err := k.Import(last); err != nil {
						return Errf("p%d: import %d: %v", set, i, err)
					}
					k.Export(b)
					if !bytes.Equal(b, last) {
						return Errf("p%d: import %d: exports %x, imported %x", set, i, b, last)
					}
				}
				b, last = last, b
			}
		}
	}
	x.NT()
	return nil
}

func endurSidh(what string, n int) func(tier string, emit func(endur)) {
	return func(tier string, emit func(endur)) { emit(endur{What: what, N: n, Seed: seedBase()}) }
}

// The following are long histories for the runners of the properties.

func endurC15(tier string, emit func(c15h)) {
	for _, side := range []int{0, 1} {
		c := c15h{Set: 434, N: 1, Sike: side == 1}
		for i := 0; i < 262; i++ {
			c.Ops = append(c.Ops, c15hop{Op: "derive", Side: side})
		}
		emit(c)
	}
}

func endurC21(tier string, emit func(c21)) {
	s := sr.ByName(434)
	for i, im := range []string{"sidh", "mkem"} {
		for _, mode := range []string{"both", "dec", "enc"} {
			c := c21{Set: 434, Impl: []string{im}, Seed: seedBase() + uint64(i), How: i}
			c.Keys = []sidhKey{{S: RndFixed(s.Msg, c.Seed+1), B: RndFixed(s.Bytes[1], c.Seed+2)}}
			c.Ops = []c21op{{Op: "enc"}}
			for j := 0; j < 260; j++ {
				if mode != "dec" {
					c.Ops = append(c.Ops, c21op{Op: "enc"})
				}
				if mode == "both" {
					c.Ops = append(c.Ops, c21op{Op: "dec", Ct: j + 1})
				} else if mode == "dec" {
					c.Ops = append(c.Ops, c21op{Op: []string{"dec", "baddec"}[j*j/3%2], X: j, Ct: 0})
				}
			}
			c.Ops = append(c.Ops, c21op{Op: "dec"}, c21op{Op: "dec", Ct: 255}, c21op{Op: "dec", Ct: 256}, c21op{Op: "dec", Ct: 257})
			emit(c)
		}
	}
}

func endurC25(tier string, emit func(c25)) {
	s := sr.ByName(434)
	for _, mode := range []string{"enc", "dec"} {
		c := c25{Set: 434, N: 2, Seed: seedBase()}
		c.Keys = []sidhKey{{S: RndFixed(s.Msg, c.Seed+1), B: RndFixed(s.Bytes[1], c.Seed+2)}}
		c.Ops = []c25op{{Op: "enc", Recip: []int{0}, M: RndFixed(s.Msg, c.Seed+5)}}
		for j := 0; j < 260; j++ {
			if mode == "enc" {
				c.Ops = append(c.Ops, c25op{Op: "enc", Recip: []int{0, 0}[:1+j%2], M: RndFixed(s.Msg, c.Seed+100+uint64(j))})
			} else {
				c.Ops = append(c.Ops, c25op{Op: "dec"})
			}
		}
		c.Ops = append(c.Ops, c25op{Op: "all"})
		emit(c)
	}
}

func endurC28(tier string, emit func(c28)) {
	for _, kind := range []string{"enc", "menc", "dec"} {
		c := c28{Seed: seedBase(), Keys: []skSpec{{"single", 3}, {"single", 4}}, N: 1}
		obj := 0
		if kind == "menc" {
			obj = 2
		}
		first := kind
		if kind == "dec" {
			first = "enc"
		}
		c.Ops = []c28op{{Op: first, Obj: obj, Keys: []int{0}, Pt: RndFixed(16, 9)}}
		for j := 0; j < 260; j++ {
			if kind == "dec" {
				c.Ops = append(c.Ops, c28op{Op: "dec", Obj: 0})
			} else {
				c.Ops = append(c.Ops, c28op{Op: kind, Obj: obj, Keys: []int{0}, Pt: RndFixed(16, uint64(10+j))})
			}
		}
		emit(c)
	}
}
