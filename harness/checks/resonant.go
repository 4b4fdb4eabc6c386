package checks

import (
	"math/big"
	"math/rand"

	"pgregory.net/rapid"
)

// Operands of multi-word arithmetic for which an intermediate value consists of chosen words (zeros, ones,
// ...), so that carries happen that random operands have with a probability of 2^-64 only. Derived from a
// seed, solved with math/big.

type solve struct {
	Kind string `json:"kind,omitempty"` // "": none
	Seed uint64 `json:"seed,omitempty"`
}

func drawSolve(t *rapid.T, kinds []string) (s solve) {
	s.Kind = rapid.SampledFrom(kinds).Draw(t, "solve")
	if s.Kind != "" {
		s.Seed = rapid.Uint64().Draw(t, "solveseed")
	}
	return
}

var solveMulKinds = []string{"", "", "low", "high", "kara", "karalow", "quot", "res", "state", "col", "col", "colmix"}
var solveRdcKinds = []string{"", "", "part", "part", "col", "col", "final", "quotw"}
var solveAddKinds = []string{"", "", "sum", "diff"}

type solver struct {
	*rand.Rand
	n int      // words
	p *big.Int // modulus
	R *big.Int
}

func newSolver(seed uint64, n int, p *big.Int) *solver {
	return &solver{rand.New(rand.NewSource(int64(seed))), n, p, new(big.Int).Lsh(big.NewInt(1), uint(64*n))}
}

func (s *solver) word() uint64 {
	switch s.Intn(8) {
	case 0:
		return 0
	case 1, 2:
		return ^uint64(0)
	case 3:
		return [...]uint64{1, 1 << 63, ^uint64(0) - 1, 1<<63 - 1, 1 << 32, 1<<32 - 1}[s.Intn(6)]
	}
	return s.Uint64()
}

// words gives k words with runs.
func (s *solver) words(k int) []uint64 {
	w := make([]uint64, k)
	for i := range w {
		w[i] = s.word()
		if i > 0 && s.Intn(3) == 0 {
			w[i] = w[i-1]
		}
	}
	return w
}

func (s *solver) pat(k int) *big.Int { return fromW(s.words(k)) }

func (s *solver) random(k int) *big.Int {
	w := make([]uint64, k)
	for i := range w {
		w[i] = s.Uint64()
	}
	return fromW(w)
}

// operand gives words that are mostly random, some zero or patterns.
func (s *solver) operand(k int) []uint64 {
	w := make([]uint64, k)
	for i := range w {
		if w[i] = s.Uint64(); s.Intn(5) == 0 {
			w[i] = s.word()
		}
	}
	return w
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

func wordsOf(v *big.Int, k int) []uint64 {
	w := make([]uint64, k)
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range w {
		w[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(64*i)), m).Uint64()
	}
	return w
}

func mulInt(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func subInt(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }

// mul gives operands below bound, or false.
func (s *solver) mul(kind string, bound *big.Int) (x, y *big.Int, ok bool) {
	n := s.n
	for try := 0; try < 6; try++ {
		x, y = nil, nil
		switch kind {
		case "low": // low words of the product, also of a partial product with the first a words of x
			a := 1 + s.Intn(n)
			m := pow2(64 * a)
			y = fromW(s.operand(n))
			y.SetBit(y, 0, 1)
			y.Mod(y, bound)
			y.SetBit(y, 0, 1)
			x = mulInt(s.pat(a), new(big.Int).ModInverse(y, m))
			x.Mod(x, m)
			if a < n {
				x.Add(x, new(big.Int).Lsh(fromW(s.operand(n-a)), uint(64*a)))
			}
			if a == n || s.Intn(2) == 0 {
				x.Mod(x, pow2(bound.BitLen()-1))
			} else {
				x.Mod(x, bound)
			}
		case "high": // high words of a partial product
			a := 1 + s.Intn(n)
			y = new(big.Int).Mod(fromW(s.operand(n)), bound)
			if y.Sign() == 0 {
				continue
			}
			// the product has at most len(y)+64a bits
			t := new(big.Int).Rsh(s.pat(n+a), uint(64*n-y.BitLen()+s.Intn(65)))
			x = t.Div(t, y)
			if a < n {
				x.Mod(x, pow2(64*a))
				x.Add(x, new(big.Int).Lsh(fromW(s.operand(n-a)), uint(64*a)))
			}
			x.Mod(x, bound)
		case "kara": // halves that add up to patterns
			f := func() *big.Int {
				h := n/2 + s.Intn(2)*(n&1)
				lo := new(big.Int).Mod(fromW(s.operand(h)), pow2(64*h))
				v := subInt(new(big.Int).Add(s.pat(h), new(big.Int).Mul(pow2(64*h), big.NewInt(int64(s.Intn(2))))), lo)
				if v.Sign() < 0 {
					v.Neg(v)
				}
				v.Lsh(v, uint(64*h)).Add(v, lo)
				return v.Mod(v, bound)
			}
			x, y = f(), f()
		case "karalow": // sums of halves with a patterned product
			h := n/2 + s.Intn(2)*(n&1)
			m := pow2(64 * h)
			u := fromW(s.operand(h))
			u.SetBit(u, 0, 1)
			v := mulInt(s.pat(h), new(big.Int).ModInverse(u, m))
			v.Mod(v, m)
			f := func(sum *big.Int) *big.Int {
				hi := new(big.Int).Mod(fromW(s.operand(n-h)), new(big.Int).Rsh(bound, uint(64*h)))
				lo := subInt(sum, hi)
				lo.Mod(lo, m)
				return lo.Add(lo, new(big.Int).Lsh(hi, uint(64*h)))
			}
			x, y = f(u), f(v)
		case "quot": // words of the Montgomery quotient
			a := 1 + s.Intn(n)
			m := pow2(64 * a)
			y = new(big.Int).Mod(fromW(s.operand(n)), bound)
			y.SetBit(y, 0, 1)
			x = mulInt(s.pat(a), s.p)
			x.Neg(x).Mul(x, new(big.Int).ModInverse(y, m)).Mod(x, m)
			if a < n {
				x.Add(x, new(big.Int).Lsh(fromW(s.operand(n-a)), uint(64*a)))
			}
			x.Mod(x, pow2(bound.BitLen()-1))
		case "res": // words of the Montgomery product
			y = new(big.Int).Mod(fromW(s.operand(n)), s.p)
			if y.Sign() == 0 {
				continue
			}
			z := new(big.Int).Mod(s.pat(n), s.p)
			if s.Intn(3) == 0 {
				z = subInt(s.p, big.NewInt(int64(s.Intn(4))))
			}
			x = mulInt(z, s.R)
			x.Mul(x, new(big.Int).ModInverse(y, s.p)).Mod(x, s.p)
		case "state": // state of an interleaved Montgomery multiplication after a words of x
			a := 1 + s.Intn(n)
			x = fromW(s.operand(a))
			x.Mod(x, bound)
			if new(big.Int).Mod(x, s.p).Sign() == 0 {
				continue
			}
			y = new(big.Int).Lsh(new(big.Int).Mod(s.pat(n), s.p), uint(64*a))
			y.Mul(y, new(big.Int).ModInverse(x, s.p)).Mod(y, s.p)
			if a < n {
				x.Add(x, new(big.Int).Lsh(fromW(s.operand(n-a)), uint(64*a)))
				x.Mod(x, bound)
			}
		case "col", "colmix":
			k := bound.BitLen()
			wx, wy := wordsOf(new(big.Int).Mod(fromW(s.operand(n)), pow2(k-1)), n), wordsOf(new(big.Int).Mod(fromW(s.operand(n)), pow2(k-1)), n)
			c := s.Intn(2*n - 1)
			if !s.column(wx, wy, c, kind == "colmix", pow2(k-1)) {
				continue
			}
			x, y = fromW(wx), fromW(wy)
			if s.Intn(2) == 0 {
				x, y = y, x
			}
		}
		if x.Sign() >= 0 && y.Sign() >= 0 && x.Cmp(bound) < 0 && y.Cmp(bound) < 0 {
			return x, y, true
		}
	}
	return nil, nil, false
}

// column changes one word of x so that the sum which column-wise multiplication x*y has in column c (all of its
// products or, if mixed, those before or after some place) ends just below a multiple of 2^64 or 2^128.
func (s *solver) column(x, y []uint64, c int, mixed bool, bound *big.Int) bool {
	n := len(x)
	lo, hi := c-n+1, c
	if lo < 0 {
		lo = 0
	}
	if hi > n-1 {
		hi = n - 1
	}
	first, last := lo, hi
	if mixed {
		if s.Intn(2) == 0 {
			first += s.Intn(hi - lo + 1)
		} else {
			last -= s.Intn(hi - lo + 1)
		}
	}
	j := first + s.Intn(last-first+1)
	in := func(i, k int) bool { // does x[i]*y[k] belong to the sum
		return i+k < c || i+k == c && i >= first && i <= last
	}
	rest, coef := new(big.Int), new(big.Int)
	for i := range x {
		for k := range y {
			if !in(i, k) {
				continue
			}
			t := new(big.Int).Lsh(new(big.Int).SetUint64(y[k]), uint(64*(i+k)))
			if i == j {
				coef.Add(coef, t)
			} else {
				rest.Add(rest, t.Mul(t, new(big.Int).SetUint64(x[i])))
			}
		}
	}
	if coef.Sign() == 0 {
		return false
	}
	m := pow2(64*c + 64 + 64*s.Intn(2))
	q := new(big.Int).Div(rest, m)
	q.Add(q, big.NewInt(int64(1+s.Intn(2)))).Mul(q, m)
	q.Sub(q, rest).Sub(q, big.NewInt(1)).Div(q, coef)
	if !q.IsUint64() {
		return false
	}
	x[j] = q.Uint64()
	if s.Intn(4) == 0 {
		x[j]++
	}
	return fromW(x).Cmp(bound) < 0
}

// rdc gives an input for Montgomery reduction below p*R, or false.
func (s *solver) rdc(kind string) (x *big.Int, ok bool) {
	n := s.n
	max := mulInt(s.p, s.R)
	for try := 0; try < 6; try++ {
		switch kind {
		case "part": // the sum after a digits of the quotient
			a := 1 + s.Intn(n)
			m := s.pat(a)
			if s.Intn(2) == 0 {
				m = s.random(a)
			}
			t := s.pat(2*n - a)
			t.Mod(t, new(big.Int).Rsh(max, uint(64*a)))
			x = subInt(t.Lsh(t, uint(64*a)), mulInt(m, s.p))
		case "final": // result and quotient
			z := new(big.Int).Mod(s.pat(n), new(big.Int).Lsh(s.p, 1))
			if s.Intn(2) == 0 {
				z = new(big.Int).Add(s.p, big.NewInt(int64(s.Intn(7)-3)))
			}
			m := fromW(s.operand(n))
			m.Rsh(m, uint(s.Intn(64*n)))
			x = subInt(z.Mul(z, s.R), m.Mul(m, s.p))
		case "quotw": // patterned quotient
			m := s.pat(n)
			x = mulInt(m, s.p)
			x.Neg(x).Mod(x, s.R)
			h := fromW(s.operand(n))
			x.Add(x, h.Mod(h, s.p).Mul(h, s.R))
		case "col": // column sums of quotient * (p+1)
			z := s.operand(n)
			p1 := wordsOf(new(big.Int).Add(s.p, big.NewInt(1)), n)
			c := s.Intn(2*n - 1)
			if !s.column(z, p1, c, s.Intn(3) == 0, s.R) {
				continue
			}
			x = mulInt(fromW(z), s.p)
			x.Neg(x).Mod(x, s.R)
			h := s.operand(n)
			if c >= n {
				h[c-n] = ^uint64(0) - uint64(s.Intn(2))
			}
			hv := fromW(h)
			x.Add(x, hv.Mod(hv, pow2(s.p.BitLen()-1)).Mul(hv, s.R))
		}
		if x.Sign() >= 0 && x.Cmp(max) < 0 {
			return x, true
		}
	}
	return nil, false
}

// add gives operands below bound whose sum or difference is a pattern or close to a multiple of p.
func (s *solver) add(kind string, bound *big.Int) (x, y *big.Int, ok bool) {
	for try := 0; try < 6; try++ {
		x = new(big.Int).Mod(fromW(s.operand(s.n)), bound)
		t := s.pat(s.n)
		if s.Intn(2) == 0 {
			t = mulInt(s.p, big.NewInt(int64(s.Intn(5))))
			t.Add(t, big.NewInt(int64(s.Intn(7)-3)))
		}
		if kind == "sum" {
			y = subInt(t, x)
		} else if y = subInt(x, t); s.Intn(2) == 0 {
			y = new(big.Int).Add(x, t)
		}
		if y.Sign() >= 0 && y.Cmp(bound) < 0 {
			return x, y, true
		}
	}
	return nil, nil, false
}
