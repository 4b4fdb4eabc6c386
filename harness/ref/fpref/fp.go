// Package fpref is a plain prime-field implementation (word-by-word
// Montgomery multiplication for any modulus up to 768 bits), used by the
// reference implementations. It is checked against math/big in SelfCheck.
package fpref

import (
	"errors"
	"math/big"
	"math/bits"
)

const Max = 12

// El is a field element in Montgomery form, always reduced.
type El [Max]uint64

type Field struct {
	N    int
	P    [Max]uint64
	Big  *big.Int
	ninv uint64
	One  El
	r2   El
	pm2  *big.Int
	half *big.Int
}

func New(p *big.Int) *Field {
	f := &Field{Big: new(big.Int).Set(p), N: (p.BitLen() + 63) / 64}
	f.P = words(p)
	inv := uint64(1)
	for i := 0; i < 6; i++ {
		inv *= 2 - f.P[0]*inv
	}
	f.ninv = -inv
	r := new(big.Int).Lsh(big.NewInt(1), uint(64*f.N))
	f.One = words(new(big.Int).Mod(r, p))
	r.Mul(r, r)
	f.r2 = words(r.Mod(r, p))
	f.pm2 = new(big.Int).Sub(p, big.NewInt(2))
	f.half = new(big.Int).Rsh(p, 1)
	return f
}

func words(v *big.Int) (r [Max]uint64) {
	t := new(big.Int).Set(v)
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range r {
		r[i] = new(big.Int).And(t, m).Uint64()
		t.Rsh(t, 64)
	}
	return
}

func (f *Field) Mul(z, x, y *El) {
	var t [Max + 2]uint64
	n := f.N
	for i := 0; i < n; i++ {
		var c, cc uint64
		xi := x[i]
		for j := 0; j < n; j++ {
			h, l := bits.Mul64(xi, y[j])
			l, cc = bits.Add64(l, t[j], 0)
			h += cc
			l, cc = bits.Add64(l, c, 0)
			h += cc
			t[j] = l
			c = h
		}
		t[n], cc = bits.Add64(t[n], c, 0)
		t[n+1] = cc
		m := t[0] * f.ninv
		h, l := bits.Mul64(m, f.P[0])
		_, cc = bits.Add64(l, t[0], 0)
		c = h + cc
		for j := 1; j < n; j++ {
			h, l := bits.Mul64(m, f.P[j])
			l, cc = bits.Add64(l, t[j], 0)
			h += cc
			l, cc = bits.Add64(l, c, 0)
			h += cc
			t[j-1] = l
			c = h
		}
		t[n-1], cc = bits.Add64(t[n], c, 0)
		t[n] = t[n+1] + cc
	}
	var r El
	copy(r[:n], t[:n])
	f.red(z, &r, t[n])
}

func (f *Field) red(z, r *El, top uint64) {
	var s El
	var b uint64
	for i := 0; i < f.N; i++ {
		s[i], b = bits.Sub64(r[i], f.P[i], b)
	}
	if top != 0 || b == 0 {
		*z = s
	} else {
		*z = *r
	}
}

func (f *Field) Sqr(z, x *El) { f.Mul(z, x, x) }

func (f *Field) Add(z, x, y *El) {
	var r El
	var c uint64
	for i := 0; i < f.N; i++ {
		r[i], c = bits.Add64(x[i], y[i], c)
	}
	f.red(z, &r, c)
}

func (f *Field) Sub(z, x, y *El) {
	var r El
	var b uint64
	for i := 0; i < f.N; i++ {
		r[i], b = bits.Sub64(x[i], y[i], b)
	}
	if b != 0 {
		var c uint64
		for i := 0; i < f.N; i++ {
			r[i], c = bits.Add64(r[i], f.P[i], c)
		}
	}
	*z = r
}

func (f *Field) Neg(z, x *El) { var o El; f.Sub(z, &o, x) }

func (x *El) IsZero() bool { return *x == El{} }

// Exp is square and multiply.
func (f *Field) Exp(z, x *El, e *big.Int) {
	r := f.One
	b := *x
	for i := e.BitLen() - 1; i >= 0; i-- {
		f.Mul(&r, &r, &r)
		if e.Bit(i) == 1 {
			f.Mul(&r, &r, &b)
		}
	}
	*z = r
}

// Inv maps 0 to 0.
func (f *Field) Inv(z, x *El) {
	v := f.Out(x)
	if v.Sign() == 0 {
		*z = El{}
		return
	}
	v.ModInverse(v, f.Big)
	*z = f.In(v)
}

// IsSquare holds for 0 as well.
func (f *Field) IsSquare(x *El) bool { return big.Jacobi(f.Out(x), f.Big) >= 0 }

// In converts from an integer.
func (f *Field) In(v *big.Int) El {
	t := El(words(new(big.Int).Mod(v, f.Big)))
	r2 := f.r2
	f.Mul(&t, &t, &r2)
	return t
}
func (f *Field) Int(v int64) El { return f.In(big.NewInt(v)) }

// Raw takes words as they are (the value times R^-1).
func (f *Field) Raw(v *big.Int) El { return El(words(v)) }

// RawOut is the Montgomery representation as an integer.
func (f *Field) RawOut(x *El) *big.Int {
	r := new(big.Int)
	for i := f.N - 1; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(x[i]))
	}
	return r
}

// Out converts to an integer.
func (f *Field) Out(x *El) *big.Int {
	one := El{1}
	var t El
	f.Mul(&t, x, &one)
	return f.RawOut(&t)
}

// SelfCheck compares with math/big on a few values.
func (f *Field) SelfCheck() error {
	v := big.NewInt(3)
	w := new(big.Int).Sub(f.Big, big.NewInt(1))
	for i := 0; i < 40; i++ {
		a, b := f.In(v), f.In(w)
		var m, s, d, iv El
		f.Mul(&m, &a, &b)
		f.Add(&s, &a, &b)
		f.Sub(&d, &a, &b)
		f.Inv(&iv, &a)
		f.Mul(&iv, &iv, &a)
		mm := new(big.Int).Mul(v, w)
		mm.Mod(mm, f.Big)
		ss := new(big.Int).Add(v, w)
		ss.Mod(ss, f.Big)
		dd := new(big.Int).Sub(v, w)
		dd.Mod(dd, f.Big)
		if f.Out(&m).Cmp(mm) != 0 || f.Out(&s).Cmp(ss) != 0 || f.Out(&d).Cmp(dd) != 0 || iv != f.One {
			return errors.New("fpref self check failed")
		}
		w, v = v, mm.Add(mm, big.NewInt(int64(i)))
		v.Mod(v, f.Big)
	}
	return nil
}
