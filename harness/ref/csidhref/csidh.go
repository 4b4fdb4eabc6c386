// Package csidhref computes the CSIDH-512 class group action from its
// definition: Velu isogenies between Montgomery curves (Costello-Hisil form),
// kernels found from arbitrary points.
package csidhref

import (
	"math/big"

	"verif/ref/fpref"
)

var (
	Primes []int64
	P      *big.Int
	Pp1    *big.Int
	F      *fpref.Field
	two    fpref.El
	four   fpref.El
)

const pHex = "65b48e8f740f89bffc8ab0d15e3e4c4ab42d083aedc88c425afbfcc69322c9cda7aac6c567f35507516730cc1f0b4f25c2721bf457aca8351b81b90533c6c87b"

func init() {
	for n := int64(3); n < 374; n += 2 {
		if big.NewInt(n).ProbablyPrime(10) {
			Primes = append(Primes, n)
		}
	}
	Primes = append(Primes, 587)
	Pp1 = big.NewInt(4)
	for _, l := range Primes {
		Pp1.Mul(Pp1, big.NewInt(l))
	}
	P = new(big.Int).Sub(Pp1, big.NewInt(1))
	if h, _ := new(big.Int).SetString(pHex, 16); h.Cmp(P) != 0 || len(Primes) != 74 {
		panic("csidhref: wrong prime")
	}
	F = fpref.New(P)
	if err := F.SelfCheck(); err != nil {
		panic(err)
	}
	two = F.Int(2)
	four = F.Int(4)
}

type El = fpref.El

// Pt is an x-only projective point.
type Pt struct{ X, Z El }

func (p *Pt) Inf() bool { return p.Z.IsZero() }

// dbl: (x^2-1)^2 : 4x(x^2+Ax+1)
func dbl(r, p *Pt, A *El) {
	var xx, zz, xz, t, u El
	F.Sqr(&xx, &p.X)
	F.Sqr(&zz, &p.Z)
	F.Mul(&xz, &p.X, &p.Z)
	F.Sub(&t, &xx, &zz)
	F.Sqr(&t, &t)
	F.Mul(&u, A, &xz)
	F.Add(&u, &u, &xx)
	F.Add(&u, &u, &zz)
	F.Mul(&u, &u, &xz)
	F.Mul(&u, &u, &four)
	r.X, r.Z = t, u
}

// add: differential addition, x(P+Q) from x(P), x(Q), x(P-Q)
func add(r, p, q, d *Pt) {
	var a, b, c, e El
	F.Mul(&a, &p.X, &q.X)
	F.Mul(&b, &p.Z, &q.Z)
	F.Sub(&a, &a, &b)
	F.Mul(&b, &p.X, &q.Z)
	F.Mul(&c, &p.Z, &q.X)
	F.Sub(&b, &b, &c)
	F.Sqr(&a, &a)
	F.Sqr(&b, &b)
	F.Mul(&e, &a, &d.Z)
	F.Mul(&b, &b, &d.X)
	r.X, r.Z = e, b
}

// Mul is the Montgomery ladder.
func Mul(p *Pt, A *El, k *big.Int) Pt {
	if k.Sign() == 0 || p.Inf() {
		return Pt{X: F.One}
	}
	if p.X.IsZero() { // (0,0) has order two
		if k.Bit(0) == 0 {
			return Pt{X: F.One}
		}
		return *p
	}
	r0, r1 := *p, Pt{}
	dbl(&r1, p, A)
	for i := k.BitLen() - 2; i >= 0; i-- {
		if k.Bit(i) == 1 {
			add(&r0, &r0, &r1, p)
			dbl(&r1, &r1, A)
		} else {
			add(&r1, &r0, &r1, p)
			dbl(&r0, &r0, A)
		}
	}
	if r0.Z.IsZero() {
		return Pt{X: F.One}
	}
	return r0
}

// OnCurve says if x is the abscissa of a point over GF(p) (not of the twist).
func OnCurve(x, A *El) bool {
	var t, u El
	F.Sqr(&t, x)
	F.Mul(&u, A, x)
	F.Add(&t, &t, &u)
	one := F.One
	F.Add(&t, &t, &one)
	F.Mul(&t, &t, x)
	return F.IsSquare(&t)
}

// isogeny with kernel <K> of odd order l; maps p and returns the new A.
func isogeny(p *Pt, A *El, K *Pt, l int64) El {
	d := int(l / 2)
	pts := make([]Pt, d)
	pts[0] = *K
	if d > 1 {
		dbl(&pts[1], K, A)
	}
	for i := 2; i < d; i++ {
		add(&pts[i], &pts[i-1], K, &pts[i-2])
	}
	// one inversion for all x = X/Z and 1/x = Z/X
	pre := make([]El, 2*d+1)
	pre[0] = F.One
	for i := 0; i < d; i++ {
		F.Mul(&pre[2*i+1], &pre[2*i], &pts[i].Z)
		F.Mul(&pre[2*i+2], &pre[2*i+1], &pts[i].X)
	}
	var inv El
	F.Inv(&inv, &pre[2*d])
	var sum El
	prod := F.One
	X, Z := F.One, F.One
	for i := d - 1; i >= 0; i-- {
		var iX, iZ, x, ix, t, u El
		F.Mul(&iX, &inv, &pre[2*i+1])
		F.Mul(&inv, &inv, &pts[i].X)
		F.Mul(&iZ, &inv, &pre[2*i])
		F.Mul(&inv, &inv, &pts[i].Z)
		F.Mul(&x, &pts[i].X, &iZ)
		F.Mul(&ix, &pts[i].Z, &iX)
		F.Sub(&t, &ix, &x)
		F.Add(&sum, &sum, &t)
		F.Mul(&prod, &prod, &x)
		F.Mul(&t, &p.X, &x)
		F.Sub(&t, &t, &p.Z)
		F.Mul(&X, &X, &t)
		F.Mul(&u, &p.Z, &x)
		F.Sub(&u, &p.X, &u)
		F.Mul(&Z, &Z, &u)
	}
	F.Sqr(&X, &X)
	F.Sqr(&Z, &Z)
	F.Mul(&p.X, &p.X, &X)
	F.Mul(&p.Z, &p.Z, &Z)
	six := F.Int(6)
	F.Mul(&sum, &sum, &six)
	F.Add(&sum, &sum, A)
	F.Sqr(&prod, &prod)
	F.Mul(&sum, &sum, &prod)
	return sum
}

// Action applies prod l_i^e_i to the curve with coefficient A. seed picks the
// points; the result doesn't depend on it.
func Action(A El, e []int, seed uint64) El {
	rem := append([]int{}, e...)
	left := 0
	for _, v := range rem {
		if v != 0 {
			left++
		}
	}
	ctr := big.NewInt(0).SetUint64(seed | 1)
	mult, _ := new(big.Int).SetString("6a09e667f3bcc908b2fb1366ea957d3e3adec17512775099da2f590b0667322a95f9060875714587e8b5f6a1c7b3c5d4f3", 16)
	for left > 0 {
		ctr.Mul(ctr, mult)
		ctr.Add(ctr, big.NewInt(12345))
		ctr.Mod(ctr, P)
		x := F.In(ctr)
		if x.IsZero() {
			continue
		}
		s := 1
		if !OnCurve(&x, &A) {
			s = -1
		}
		var set []int
		k := new(big.Int).Set(Pp1)
		for i := len(Primes) - 1; i >= 0; i-- {
			if rem[i]*s > 0 {
				set = append(set, i)
				k.Div(k, big.NewInt(Primes[i]))
			}
		}
		if len(set) == 0 {
			continue
		}
		pt := Pt{x, F.One}
		pt = Mul(&pt, &A, k)
		rest := new(big.Int).Div(Pp1, k)
		for _, i := range set {
			if pt.Inf() {
				break
			}
			rest.Div(rest, big.NewInt(Primes[i]))
			K := Mul(&pt, &A, rest)
			if K.Inf() {
				continue
			}
			A = isogeny(&pt, &A, &K, Primes[i])
			rem[i] -= s
			if rem[i] == 0 {
				left--
			}
		}
	}
	return A
}

// Supersingular decides (with overwhelming probability) if y^2=x^3+Ax^2+x has
// p+1 points: p+1 must kill points of curve and twist alike.
func Supersingular(A El) bool {
	var t El
	F.Sqr(&t, &A)
	if t == four {
		return false
	}
	v := big.NewInt(7)
	m, _ := new(big.Int).SetString("9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e952767f0b153d27b7f0347045b5bf1827f01886f0928403002c1d64ba40f335e36f06ad7ae9717877e85839d6effbd7dc6", 16)
	for i := 0; i < 6; i++ {
		v.Mul(v, m)
		v.Add(v, big.NewInt(int64(i+1)))
		v.Mod(v, P)
		p := Pt{F.In(v), F.One}
		r := Mul(&p, &A, Pp1)
		if !r.Inf() {
			return false
		}
	}
	return true
}

// Encode is the public key format: little-endian words of A*2^512 mod p.
func Encode(A *El) []byte {
	b := F.RawOut(A).FillBytes(make([]byte, 64))
	for i, j := 0, 63; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

// Value is the integer a key encodes, before any reduction.
func Value(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}

// Exps unpacks a private key: exponent i is the high (i even) or low (i odd) nibble of byte i/2.
func Exps(b []byte) []int {
	e := make([]int, 74)
	for i := range e {
		n := int(b[i/2] >> uint(4-4*(i%2)) & 15)
		if n > 7 {
			n -= 16
		}
		e[i] = n
	}
	return e
}
