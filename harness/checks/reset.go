package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	. "verif/core"
	sr "verif/ref/sidhref"

	"github.com/henrydcase/nobs/dh/sidh"
	"mkem"
	"pgregory.net/rapid"
)

// --- C34: Reset erases the secrets of earlier operations

// span is a piece of the memory an object consists of.
type span struct {
	what string
	b    []byte
}

// memoryOf lists the memory that can be reached from v: objects behind pointers, arrays behind slices up to their
// capacity, objects in interfaces. What belongs to the harness (the random source) or to the parameters of the field is
// left out.
func memoryOf(v any) []span {
	var out []span
	seen := map[unsafe.Pointer]bool{}
	skip := func(t reflect.Type) bool {
		return strings.HasPrefix(t.PkgPath(), "verif/") || strings.Contains(t.Name(), "SidhParams") || t.PkgPath() == "io"
	}
	var walk func(v reflect.Value, what string)
	walk = func(v reflect.Value, what string) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || skip(v.Type().Elem()) {
				return
			}
			p := v.UnsafePointer()
			if seen[p] {
				return
			}
			seen[p] = true
			out = append(out, span{what, unsafe.Slice((*byte)(p), v.Type().Elem().Size())})
			walk(v.Elem(), what)
		case reflect.Interface:
			if e := v.Elem(); e.IsValid() && !skip(e.Type()) {
				walk(e, what)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), what+"."+v.Type().Field(i).Name)
			}
		case reflect.Slice:
			n := v.Cap()
			if n == 0 {
				return
			}
			if p := v.UnsafePointer(); !seen[p] {
				seen[p] = true
				out = append(out, span{what, unsafe.Slice((*byte)(p), uintptr(n)*v.Type().Elem().Size())})
			}
			if hasPointers(v.Type().Elem()) {
				v = v.Slice(0, n)
				for i := 0; i < n; i++ {
					walk(v.Index(i), what+"[]")
				}
			}
		case reflect.Array:
			if hasPointers(v.Type().Elem()) {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), what+"[]")
				}
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(k, what+"{}")
				walk(v.MapIndex(k), what+"{}")
			}
		case reflect.String:
			if v.Len() > 0 {
				out = append(out, span{what, []byte(v.String())})
			}
		}
	}
	walk(reflect.ValueOf(v), reflect.TypeOf(v).Elem().Name())
	return out
}

func hasPointers(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.String, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return true
	case reflect.Array:
		return hasPointers(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// fragment is the length of the shortest piece of a secret that is looked for: long enough not to appear by chance.
const fragment = 6

type secretBytes struct {
	name string
	b    []byte
}

// lookFor says where a piece of a secret is in memory.
func lookFor(mem []span, secrets []secretBytes) string {
	for _, s := range secrets {
		for i := 0; i+fragment <= len(s.b); i++ {
			w := s.b[i : i+fragment]
			if !manyBytes(w) {
				continue
			}
			for _, m := range mem {
				if j := bytes.Index(m.b, w); j >= 0 {
					return fmt.Sprintf("bytes %d.. of the %s (%x) at offset %d of %s", i, s.name, w, j, m.what)
				}
			}
		}
	}
	return ""
}

// manyBytes: not something that is likely to be found everywhere.
func manyBytes(b []byte) bool {
	d := map[byte]bool{}
	for _, v := range b {
		d[v] = true
	}
	return len(d) >= 4
}

type c34 struct {
	Set  int      `json:"set"`
	Impl string   `json:"impl"`
	How  int      `json:"how"`
	Seed uint64   `json:"seed"`
	Ops  []string `json:"ops"`
}

func genC34(t *rapid.T) c34 {
	c := c34{Set: drawSet(t), Impl: rapid.SampledFrom([]string{"sidh", "mkem", "multi", "multi"}).Draw(t, "impl"), How: rapid.IntRange(0, 15).Draw(t, "how"), Seed: rapid.Uint64().Draw(t, "seed")}
	kinds := []string{"enc", "enc", "dec", "bad", "fail", "reset"}
	if c.Impl == "multi" {
		kinds = append(kinds, "single")
	}
	c.Ops = rapid.SliceOfN(rapid.SampledFrom(kinds), 0, 3).Draw(t, "ops")
	c.Ops = append([]string{rapid.SampledFrom([]string{"enc", "enc", "fail", "dec"}).Draw(t, "first")}, c.Ops...)
	return c
}

// residue finds bytes which stay where they were in every one of several runs with different secrets: places is, for
// each run, the bytes of the secrets found before the reset and what is there after it.
type place struct {
	what   string
	before byte
	at     *byte
}

func runC34(c c34, x *Ctx) error {
	// bytes that survive Reset, by place, in how many runs
	var left map[string]string
	for run := 0; run < 3; run++ {
		here, err := c34once(c, c.Seed+uint64(run), x)
		if err != nil {
			return err
		}
		if run == 0 {
			left = here
			continue
		}
		for k := range left {
			if here[k] == "" {
				delete(left, k)
			}
		}
		if len(left) == 0 {
			break
		}
	}
	for k, v := range left {
		return Errf("p%d %s: Reset leaves %s at %s", c.Set, c.Impl, v, k)
	}
	return nil
}

func c34once(c c34, seed uint64, x *Ctx) (map[string]string, error) {
	s := sr.ByName(c.Set)
	src := &swapRNG{GoodRNG(seed).New()}
	var multi mkem.MultiKEM
	var k kemAPI
	var obj any
	if c.Impl == "multi" {
		multi.Allocate(sidhIDs[c.Set], 2, src)
		obj = &multi
	} else {
		k = newKem(c.Impl, c.How, c.Set, src)
		obj = k
	}
	// the sender and two recipients
	var pairs [2]*sikePair
	for i := range pairs {
		p, err := mkSike(c.Set, sidhKey{Gen: true, B: RndFixed(s.Bytes[1], seed+uint64(50+i)), S: RndFixed(s.Msg, seed+uint64(60+i)), Seed: seed})
		if err != nil {
			return nil, err
		}
		pairs[i] = p
	}
	var secrets []secretBytes
	for i, p := range pairs {
		secrets = append(secrets, secretBytes{fmt.Sprintf("rejection secret of recipient %d", i), p.S}, secretBytes{fmt.Sprintf("private key of recipient %d", i), p.raw[s.Msg:]})
	}
	// note puts down the secrets of an encapsulation of m
	note := func(op string, m []byte, single bool) error {
		secrets = append(secrets, secretBytes{"message", m})
		var h []byte
		if single {
			h = sr.Shake256(s.Bytes[0], m, pairs[0].pk)
		} else {
			h = sr.Shake256(s.Bytes[0], []byte{1}, m)
		}
		e := maskScalar(s, 0, h)
		secrets = append(secrets, secretBytes{"ephemeral private key", e})
		if op == "fail" {
			return nil
		}
		eph := sidh.NewPrivateKey(sidhIDs[c.Set], sidh.KeyVariantSidhA)
		if err := eph.Import(e); err != nil {
			return err
		}
		for i, p := range pairs {
			j := make([]byte, s.SsLen())
			eph.DeriveSecret(j, p.pub)
			secrets = append(secrets, secretBytes{fmt.Sprintf("value shared with recipient %d", i), j})
			if single {
				break
			}
		}
		return nil
	}
	reset := func() {
		if c.Impl == "multi" {
			multi.Reset()
		} else {
			k.Reset()
		}
	}
	n := 0
	draw := func(failAt int) []byte {
		n++
		m := make([]byte, s.Msg)
		NewPRNG(seed + uint64(1000+n)).Fill(m)
		r := GoodRNG(seed + uint64(n))
		r.Prefix, r.FailAt = []Blob{RawBlob(m)}, failAt
		src.r = r.New()
		return m
	}
	key := make([]byte, s.Kem)
	ct := make([]byte, s.CtLen())
	multiEnc := false
	enc := func() error {
		m := draw(-1)
		var err error
		if c.Impl == "multi" {
			err = multi.Encapsulate(key, []*sidh.PublicKey{pairs[0].pub, pairs[1].pub})
			multiEnc = true
		} else {
			err = k.Encapsulate(ct, key, pairs[0].pub)
		}
		if err != nil {
			return Errf("Encapsulate: %v", err)
		}
		return note("enc", m, c.Impl != "multi")
	}
	for _, op := range append(c.Ops, "end") {
		switch op {
		case "enc":
			if err := enc(); err != nil {
				return nil, err
			}
		case "dec", "bad":
			if n == 0 || c.Impl == "multi" && !multiEnc {
				if err := enc(); err != nil {
					return nil, err
				}
			}
			var d []byte
			if c.Impl == "multi" {
				d = append([]byte{}, multiCt(&multi, n%2)[:s.Msg]...)
			} else {
				d = append([]byte{}, ct...)
			}
			if op == "bad" {
				d[n%len(d)] ^= 2
			}
			var err error
			if c.Impl == "multi" {
				err = multi.Decapsulate(key, pairs[n%2].prv, pairs[n%2].pub, d)
			} else {
				err = k.Decapsulate(key, pairs[0].prv, pairs[0].pub, d)
			}
			if err != nil && op == "dec" {
				return nil, Errf("Decapsulate: %v", err)
			}
		case "single":
			m := draw(-1)
			if err := multi.KEM.Encapsulate(ct, key, pairs[0].pub); err != nil {
				return nil, Errf("Encapsulate: %v", err)
			}
			if err := note("single", m, true); err != nil {
				return nil, err
			}
		case "fail":
			at := fragment + int(seed%uint64(s.Msg-fragment))
			m := draw(at)
			var err error
			if c.Impl == "multi" {
				err = multi.Encapsulate(key, []*sidh.PublicKey{pairs[0].pub})
			} else {
				err = k.Encapsulate(ct, key, pairs[0].pub)
			}
			if err == nil {
				return nil, Errf("Encapsulate succeeds although the random source fails")
			}
			if err := note("fail", m[:at], c.Impl != "multi"); err != nil {
				return nil, err
			}
			multiEnc = false
		}
		if op != "reset" && op != "end" {
			continue
		}
		// where are they before, and what is there after?
		var places []place
		for _, m := range memoryOf(obj) {
			for _, sec := range secrets {
				for i := 0; i+fragment <= len(sec.b); i++ {
					w := sec.b[i : i+fragment]
					if !manyBytes(w) {
						continue
					}
					for from := 0; ; {
						j := bytes.Index(m.b[from:], w)
						if j < 0 {
							break
						}
						for t := range w {
							places = append(places, place{fmt.Sprintf("%s+%d", m.what, from+j+t), w[t], &m.b[from+j+t]})
						}
						from += j + 1
					}
				}
			}
		}
		if len(places) > 0 {
			x.NT()
		}
		reset()
		if at := lookFor(memoryOf(obj), secrets); at != "" {
			return nil, Errf("p%d %s: after %v and Reset there are %s", c.Set, c.Impl, c.Ops, at)
		}
		left := map[string]string{}
		for _, p := range places {
			if p.before != 0 && *p.at == p.before {
				left[p.what] = fmt.Sprintf("a byte %02x of a secret", p.before)
			}
		}
		if op == "end" {
			x.Label("p%d %s", c.Set, c.Impl)
			return left, nil
		}
	}
	return nil, nil
}

func init() {
	Register(&Prop{ID: "C34",
		Assumptions: []string{
			"the memory of an object is what can be reached from it; stacks, registers and memory given up earlier are not looked at",
			"the state of the hash object, from which the last key can be recomputed, is not a piece of these secrets and isn't looked for",
		},
		Suites: []*Suite{
			Gen(Suite{Name: "histories", Quick: 2400, Thorough: 20000, Rule: "a piece of a message, ephemeral private key or shared value was found in the object before Reset; none may be left after it"}, genC34, runC34),
		}})
}
