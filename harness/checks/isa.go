package checks

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/drbg"
	"mkem"
	"pgregory.net/rapid"
	. "verif/core"
	"verif/ref/hwcpu"
)

// Simulated processors: the library starts with a given content of CPUID, one
// operation of every kind is done, and the assembly has noted which optional
// extensions of the instruction set it used.

var isaUsed func() map[string]bool // set in build isa

type isaStep struct {
	Op   string
	Hash string
	Used []string
}

func isaSteps(seed uint64) (r []isaStep) {
	step := func(op string, f func() []byte) {
		h := sha256.Sum256(f())
		s := isaStep{Op: op, Hash: hex.EncodeToString(h[:12])}
		if isaUsed != nil {
			for k, v := range isaUsed() {
				if v {
					s.Used = append(s.Used, k)
				}
			}
			sort.Strings(s.Used)
		}
		r = append(r, s)
	}
	rng := GoodRNG(seed).New()
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	step("hashes", func() (out []byte) {
		for _, k := range append(append([]string{}, sha3Kinds...), "sm3") {
			o := makeObj(k, []byte("f"), []byte("c"))
			o.w().Write(make([]byte, 500))
			if o.fix != nil {
				out = o.fix.Sum(out)
			} else {
				b := make([]byte, 300)
				o.xof.Read(b)
				out = append(out, b...)
			}
		}
		return
	})
	step("DRBG", func() []byte {
		d := drbg.NewCtrDrbg()
		e := make([]byte, 48)
		NewPRNG(seed).Fill(e)
		d.Init(e, []byte("p"))
		out := make([]byte, 100)
		d.Read(out)
		d.Reseed(e[5:], []byte("x"))
		d.ReadWithAdditionalData(out[50:], []byte("y"))
		return out
	})
	for _, set := range []int{434, 503, 751} {
		id := sidhIDs[set]
		step(fmt.Sprintf("SIDH p%d", set), func() (out []byte) {
			a, b := sidh.NewPrivateKey(id, sidh.KeyVariantSidhA), sidh.NewPrivateKey(id, sidh.KeyVariantSidhB)
			pa, pb := sidh.NewPublicKey(id, sidh.KeyVariantSidhA), sidh.NewPublicKey(id, sidh.KeyVariantSidhB)
			must(a.Generate(rng))
			must(b.Generate(rng))
			a.GeneratePublicKey(pa)
			b.GeneratePublicKey(pb)
			s := make([]byte, a.SharedSecretSize())
			a.DeriveSecret(s, pb)
			out = append(append(sidhPub(pa), sidhPub(pb)...), s...)
			b.DeriveSecret(s, pa)
			return append(out, s...)
		})
		step(fmt.Sprintf("KEMs p%d", set), func() (out []byte) {
			k, p := sidh.NewPrivateKey(id, sidh.KeyVariantSike), sidh.NewPublicKey(id, sidh.KeyVariantSike)
			must(k.Generate(rng))
			k.GeneratePublicKey(p)
			for _, im := range []string{"sidh", "mkem"} {
				kem := newKem(im, 0, set, rng)
				ct, s := make([]byte, kem.CiphertextSize()), make([]byte, kem.SharedSecretSize())
				must(kem.Encapsulate(ct, s, p))
				out = append(append(out, ct...), s...)
				must(kem.Decapsulate(s, k, p, ct))
				out = append(out, s...)
			}
			var m mkem.MultiKEM
			m.Allocate(id, 1, rng)
			s := make([]byte, m.SharedSecretSize())
			must(m.Encapsulate(s, []*sidh.PublicKey{p}))
			return append(out, s...)
		})
	}
	step("CSIDH", func() []byte {
		var k csidh.PrivateKey
		var p csidh.PublicKey
		var s [64]byte
		must(csidh.GeneratePrivateKey(&k, rng))
		csidh.GeneratePublicKey(&p, &k, rng)
		if !csidh.DeriveSecret(&s, &p, &k, rng) {
			panic("DeriveSecret")
		}
		return append(pubBytes(&p), s[:]...)
	})
	return r
}

func init() {
	Children["isa"] = func(a []string) {
		var seed uint64
		fmt.Sscan(a[0], &seed)
		json.NewEncoder(os.Stdout).Encode(isaSteps(seed))
	}
}

type isaCase struct {
	Name string   `json:"name,omitempty"`
	CPU  fakeCase `json:"cpu"`
	Seed uint64   `json:"seed"`
}

var isaWant struct {
	sync.Mutex
	m map[uint64][]isaStep
}

func runISA(c isaCase, x *Ctx) error {
	hw := hwcpu.Flags()
	if !hw.Known {
		return nil
	}
	// what the real processor lacks cannot be simulated
	l7, l1 := c.CPU.Leaves["7.0"], c.CPU.Leaves["1.0"]
	for _, f := range []struct {
		has bool
		reg *uint32
		bit int
	}{{hw.AES, &l1[2], 25}, {hw.BMI2, &l7[1], 8}, {hw.ADX, &l7[1], 19}, {hw.RDSEED, &l7[1], 18}} {
		if !f.has {
			*f.reg &^= 1 << f.bit
			x.Label("feature missing on the real processor")
		}
	}
	leaves := map[string][4]uint32{}
	for k, v := range c.CPU.Leaves {
		leaves[k] = v
	}
	leaves["7.0"], leaves["1.0"] = l7, l1
	c.CPU.Leaves = leaves
	allowed := map[string]bool{}
	if c.CPU.Max >= 1 {
		allowed["AES"], allowed["CLMUL"], allowed["SSSE3"], allowed["SSE41"] = l1[2]>>25&1 == 1, l1[2]>>1&1 == 1, l1[2]>>9&1 == 1, l1[2]>>19&1 == 1
	}
	if c.CPU.Max >= 7 {
		allowed["BMI1"], allowed["BMI2"], allowed["ADX"], allowed["RDSEED"] = l7[1]>>3&1 == 1, l7[1]>>8&1 == 1, l7[1]>>19&1 == 1, l7[1]>>18&1 == 1
		// AVX needs the operating system, which doesn't support it
	}
	cmd := exec.Command(BinFor("isa"), "child", "isa", fmt.Sprint(c.Seed))
	cmd.Env = append(os.Environ(), "VERIF_CPUID="+c.CPU.table())
	b, err := cmd.Output()
	if err != nil {
		if e, ok := err.(*exec.ExitError); ok {
			return Errf("on a processor with %s the library ends with %v: %s", isaList(allowed), err, Short(e.Stderr))
		}
		return HarnessError{"child: " + err.Error()}
	}
	var got []isaStep
	if err := json.Unmarshal(b, &got); err != nil {
		return HarnessError{err.Error()}
	}
	isaWant.Lock()
	want := isaWant.m[c.Seed]
	if want == nil {
		want = isaSteps(c.Seed)
		isaWant.m = map[uint64][]isaStep{c.Seed: want}
	}
	isaWant.Unlock()
	for i, s := range got {
		for _, u := range s.Used {
			if !allowed[u] {
				return Errf("%s: instructions of extension %s are executed on a processor that has %s only (CPUID %s)", s.Op, u, isaList(allowed), c.CPU.table())
			}
		}
		if i >= len(want) || s.Hash != want[i].Hash {
			return Errf("%s: other results on a processor with %s (CPUID %s)", s.Op, isaList(allowed), c.CPU.table())
		}
	}
	x.NT()
	x.Label("uses %s", strings.Join(got[len(got)-1].Used, "+"))
	return nil
}

func isaList(m map[string]bool) string {
	var l []string
	for k, v := range m {
		if v {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return "[" + strings.Join(l, " ") + "]"
}

// table in the form the simulation reads
func (c fakeCase) table() string {
	var sb strings.Builder
	for _, k := range SortedKeys(c.Leaves) {
		v := c.Leaves[k]
		fmt.Fprintf(&sb, "%s=%x.%x.%x.%x;", k, v[0], v[1], v[2], v[3])
	}
	return sb.String()
}

// every combination of the extensions the library could use, and processors
// without leaf 7 whose table has something there nevertheless
func enumISA(tier string, emit func(isaCase)) {
	for n := 0; n < 64; n++ {
		var b, c uint32
		bit := func(i int) uint32 { return uint32(n) >> uint(i) & 1 }
		b = bit(0)<<8 | bit(1)<<19
		c = bit(2) << 25
		max := uint32(7)
		if bit(3) == 1 {
			max = 6
		}
		if bit(4) == 1 { // all the rest
			b |= ^uint32(1<<8 | 1<<19)
			c |= ^uint32(1 << 25)
		}
		d := uint32(0)
		if bit(5) == 1 {
			d = ^uint32(0)
			if tier != "thorough" && n%3 != 0 {
				continue
			}
		}
		emit(isaCase{CPU: fakeCase{Max: max, Leaves: map[string][4]uint32{"0.0": {max, d, d, d}, "1.0": {d, d, c, d}, "7.0": {d, b, d, d}, "80000001.0": {d, d, d, d}, "7.1": {d, d, d, d}}}, Seed: seedBase()})
	}
}

func genISA(t *rapid.T) isaCase { return isaCase{CPU: genFake(t), Seed: seedBase() + 1} }

func isaSuites() []*Suite {
	return []*Suite{
		Enum(Suite{Name: "extensions", Config: "isa", Rule: "every case: one operation of every part of the library on a simulated processor; the extensions its instructions belong to must be reported by that processor, and results must be the same; every combination of the extensions"}, enumISA, runISA),
		Gen(Suite{Name: "extensions-random", Config: "isa", Quick: 64, Thorough: 1000, Rule: "as extensions, arbitrary content of CPUID"}, genISA, runISA),
	}
}
