package checks

import (
	"bytes"
	"math/big"
	"sync"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	"pgregory.net/rapid"
	. "verif/core"
	sr "verif/ref/sidhref"
	"verif/step"
)

// --- C29 at the level of machine instructions
//
// As in trace.go, but in the ordinary build: the processor single-steps, and
// the addresses of the executed instructions of the library are compared. This
// reaches the assembly.

var machine = &tracing{Start: step.Start, Stop: step.Stop, Every: step.Every, Marks: step.Marks, Rec: step.Rec, Pos: step.Pos}

var machineUsable = sync.OnceValue(func() bool {
	if step.Init() != nil {
		return false
	}
	p := sidh.NewPublicKey(sidh.Fp434, sidh.KeyVariantSidhA)
	b := make([]byte, p.Size())
	machine.Start(0, 0)
	p.Import(b)
	_, n := machine.Stop()
	return n > 100
})

func sameMachine(x *Ctx, what string, f func(which int) (run func(), err error)) error {
	if !machineUsable() {
		x.Label("single steps are not available")
		return nil
	}
	x.NT()
	return sameTraceIn(machine, what+" (machine code)", f)
}

// c29m: field arithmetic of SIDH
type c29m struct {
	Set   int      `json:"set"`
	CPU   string   `json:"cpu"`
	Op    string   `json:"op"`
	X     [2][]elt `json:"x"` // operands: four field elements or two double-width ones
	Solve [2]solve `json:"solve"`
	C     [2]uint8 `json:"c"`
}

type elt struct {
	B    Blob `json:"b"`
	Near int  `json:"near,omitempty"`
}

func genC29m(t *rapid.T) c29m {
	c := c29m{Set: drawSet(t), CPU: drawCPU(t), Op: rapid.SampledFrom([]string{"add", "sub", "mul", "mul", "mul", "rdc", "rdc", "rdc", "mod", "mod", "adl", "sul", "sul", "cswap", "add2", "sub2", "mul2", "sqr2", "from"}).Draw(t, "op")}
	for i := range c.X {
		for j := 0; j < 4; j++ {
			c.X[i] = append(c.X[i], elt{DrawBlob(t, "x", 192), rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "near")})
		}
		c.C[i] = uint8(rapid.IntRange(0, 1).Draw(t, "c"))
		switch c.Op {
		case "mul", "mul2", "sqr2":
			c.Solve[i] = drawSolve(t, solveMulKinds)
		case "rdc":
			c.Solve[i] = drawSolve(t, solveRdcKinds)
		case "add", "sub", "add2", "sub2":
			c.Solve[i] = drawSolve(t, solveAddKinds)
		}
	}
	return c
}

func runC29m(c c29m, x *Ctx) error {
	return sidhWithCPU(c.CPU, func() error { return runC29min(c, x) })
}

func runC29min(c c29m, x *Ctx) error {
	s, o := sr.ByName(c.Set), sidhFp[c.Set]
	p := s.P
	words := (p.BitLen() + 63) / 64
	p2 := new(big.Int).Lsh(p, 1)
	x.Label("%s p%d %s", c.Op, c.Set, c.CPU)
	return sameMachine(x, c.Op, func(i int) (func(), error) {
		el := func(j int) *big.Int {
			v := sr.LE(c.X[i][j].B.Bytes()[:8*words])
			if n := c.X[i][j].Near; n > 0 {
				w := new(big.Int).Mul(p, big.NewInt(int64(n)))
				d := new(big.Int).And(v, big.NewInt(7))
				if n == 1 && v.Bit(5) == 1 {
					return w.Add(w, d)
				}
				return w.Sub(w, d.Add(d, big.NewInt(1)))
			}
			return v.Mod(v, p2)
		}
		wide := func(j int, max *big.Int) *big.Int {
			v := sr.LE(c.X[i][j].B.Bytes()[:16*words])
			if c.X[i][j].Near > 0 {
				d := new(big.Int).And(v, big.NewInt(0xffff))
				return new(big.Int).Sub(max, d.Add(d, big.NewInt(1)))
			}
			return v.Mod(v, max)
		}
		a, b := el(0), el(1)
		w := wide(2, new(big.Int).Mul(p, new(big.Int).Lsh(big.NewInt(1), uint(64*words))))
		if k := c.Solve[i].Kind; k != "" {
			sv := newSolver(c.Solve[i].Seed, words, p)
			var u, v *big.Int
			switch c.Op {
			case "mul", "mul2", "sqr2":
				u, v, _ = sv.mul(k, p2)
			case "add", "sub", "add2", "sub2":
				u, v, _ = sv.add(k, p2)
			case "rdc":
				if v, ok := sv.rdc(k); ok {
					w = v
				}
			}
			if u != nil {
				a, b = u, v
			}
		}
		fa, fb, z := toFp(a), toFp(b), common.Fp{}
		wa := toFpX2(w)
		max := new(big.Int).Mul(p2, p2)
		xa, xb, xz := toFpX2(wide(2, max)), toFpX2(wide(3, max)), common.FpX2{}
		ea, eb, ez := common.Fp2{A: fa, B: toFp(el(2))}, common.Fp2{A: fb, B: toFp(el(3))}, common.Fp2{}
		sw := c.C[i]
		return map[string]func(){
			"add":   func() { o.add(&z, &fa, &fb) },
			"sub":   func() { o.sub(&z, &fa, &fb) },
			"mul":   func() { o.mul(&xz, &fa, &fb) },
			"rdc":   func() { o.rdc(&z, &wa) },
			"mod":   func() { o.mod(&fa) },
			"adl":   func() { o.adl(&xz, &xa, &xb) },
			"sul":   func() { o.sul(&xz, &xa, &xb) },
			"cswap": func() { o.cswap(&fa, &fb, sw) },
			"add2":  func() { o.add2(&ez, &ea, &eb) },
			"sub2":  func() { o.sub2(&ez, &ea, &eb) },
			"mul2":  func() { o.mul2(&ez, &ea, &eb) },
			"sqr2":  func() { o.sqr2(&ez, &ea) },
			"from":  func() { o.from(&ez, &ea) },
		}[c.Op], nil
	})
}

// calls through it are not inlined
var codecs [2]interface {
	Import([]byte) error
	Export([]byte)
}

// c29k: encodings of private keys
type c29k struct {
	Set  int        `json:"set"`
	CPU  string     `json:"cpu"`
	Side int        `json:"side"`
	K    [2]sidhKey `json:"k"`
}

func genC29k(t *rapid.T) c29k {
	c := c29k{Set: drawSet(t), CPU: drawCPU(t), Side: rapid.IntRange(0, 1).Draw(t, "side")}
	s := sr.ByName(c.Set)
	for i := range c.K {
		c.K[i] = drawSidhKey(t, "k", s, c.Side)
	}
	return c
}

func runC29k(c c29k, x *Ctx) error {
	return sidhWithCPU(c.CPU, func() error {
		s := sr.ByName(c.Set)
		v := variantOf(c.Side, false)
		x.Label("p%d", c.Set)
		return sameMachine(x, "import and export", func(i int) (func(), error) {
			k := sidh.NewPrivateKey(sidhIDs[c.Set], v)
			in := bytes.Clone(c.K[i].scalar(s, c.Side))
			out := make([]byte, k.Size())
			codecs[i] = k
			return func() { codecs[i].Import(in); codecs[i].Export(out) }, nil
		})
	})
}

func machineSuites() []*Suite {
	env := []string{"GODEBUG=asyncpreemptoff=1"}
	return []*Suite{
		Gen(Suite{Name: "machine-field", Hook: "hk_sidhfp", Env: env, Quick: 1600, Thorough: 60000, Rule: "pairs of operands of field arithmetic of p434, p503 or p751, some with chosen intermediate words; assembly for each kind of processor; the addresses of all instructions executed compared"}, genC29m, runC29m),
		Gen(Suite{Name: "machine-csidh", Hook: "hk_csidhfp", Env: env, Quick: 800, Thorough: 30000, Rule: "as machine-field, CSIDH"}, genC29fm, runC29fm),
		Gen(Suite{Name: "machine-hash", Env: env, Quick: 80, Thorough: 6000, Rule: "pairs of messages of equal length"}, genC29hm, func(c c29h, x *Ctx) error { return runC29hw(c, x, sameMachine) }),
		Gen(Suite{Name: "machine-keys", Env: env, Quick: 64, Thorough: 6000, Rule: "pairs of private keys imported and exported"}, genC29k, runC29k),
	}
}

type c29fm struct {
	CPU string `json:"cpu"`
	F   c29f   `json:"f"`
}

func genC29fm(t *rapid.T) c29fm {
	c := c29fm{drawCPU(t), genC29f(t)}
	switch c.F.Op {
	case "exp512", "nonres", "exp64": // thousands of multiplications
		c.F.Op = "mul"
	}
	return c
}

func runC29fm(c c29fm, x *Ctx) error {
	return csidhWithCPU(c.CPU, func() error { return runC29fw(c.F, x, sameMachine) })
}

func genC29hm(t *rapid.T) c29h {
	c := genC29h(t)
	for i := range c.Msg {
		c.Msg[i].Len = c.Msg[i].Len % 300
	}
	if len(c.Splits) > 2 {
		c.Splits = c.Splits[:2]
	}
	if len(c.Out) > 1 {
		c.Out = c.Out[:1]
	}
	return c
}
