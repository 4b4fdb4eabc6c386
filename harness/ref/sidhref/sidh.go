// Package sidhref is an independent implementation of SIDH and SIKE, written
// from the SIKE specification (affine isogeny formulas of section 1.3, no
// optimised strategies), used as an oracle.
package sidhref

import (
	"errors"
	"math/big"

	"crypto/sha3"

	"verif/ref/fpref"
)

type El = fpref.El

// Fp2 is a+b*i.
type Fp2 struct{ A, B El }

// Set is a SIKE parameter set.
type Set struct {
	Name     int
	E2, E3   int
	F        *fpref.Field
	P        *big.Int
	Len      int // bytes of a field element
	Msg, Kem int
	One      Fp2
	Base     [2][3]Fp2 // x(P), x(Q), x(P-Q) of the 2- and 3-torsion
	// bits and bytes of private keys
	Bits, Bytes [2]int
	A0          Fp2
}

func (s *Set) PkLen() int { return 6 * s.Len }
func (s *Set) SsLen() int { return 2 * s.Len }
func (s *Set) CtLen() int { return s.PkLen() + s.Msg }

func mk(name, e2, e3, msg int, pts [6][2]string) *Set {
	p := new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(e3)), nil)
	p.Lsh(p, uint(e2))
	p.Sub(p, big.NewInt(1))
	s := &Set{Name: name, E2: e2, E3: e3, F: fpref.New(p), P: p, Len: (p.BitLen() + 7) / 8, Msg: msg, Kem: msg}
	s.One = Fp2{A: s.F.One}
	s.A0 = Fp2{A: s.F.Int(6)}
	for i, v := range pts {
		a, ok1 := new(big.Int).SetString(v[0], 16)
		b, ok2 := new(big.Int).SetString(v[1], 16)
		if !ok1 || !ok2 {
			panic("sidhref: constant")
		}
		s.Base[i/3][i%3] = Fp2{s.F.In(a), s.F.In(b)}
	}
	s.Bits[0] = e2
	// the library stores 2-torsion keys of p434 in 28 bytes, too
	s.Bytes[0] = e2/8 + 1
	t := new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(e3)), nil)
	s.Bits[1] = t.BitLen() - 1
	s.Bytes[1] = (s.Bits[1] + 7) / 8
	return s
}

func (s *Set) Add(z, x, y *Fp2) { s.F.Add(&z.A, &x.A, &y.A); s.F.Add(&z.B, &x.B, &y.B) }
func (s *Set) Sub(z, x, y *Fp2) { s.F.Sub(&z.A, &x.A, &y.A); s.F.Sub(&z.B, &x.B, &y.B) }
func (s *Set) Neg(z, x *Fp2)    { s.F.Neg(&z.A, &x.A); s.F.Neg(&z.B, &x.B) }

// Mul is the schoolbook product.
func (s *Set) Mul(z, x, y *Fp2) {
	var ac, bd, ad, bc El
	s.F.Mul(&ac, &x.A, &y.A)
	s.F.Mul(&bd, &x.B, &y.B)
	s.F.Mul(&ad, &x.A, &y.B)
	s.F.Mul(&bc, &x.B, &y.A)
	s.F.Sub(&z.A, &ac, &bd)
	s.F.Add(&z.B, &ad, &bc)
}

func (s *Set) Sqr(z, x *Fp2) { s.Mul(z, x, x) }

// Inv maps 0 to 0.
func (s *Set) Inv(z, x *Fp2) {
	var n, t El
	s.F.Mul(&n, &x.A, &x.A)
	s.F.Mul(&t, &x.B, &x.B)
	s.F.Add(&n, &n, &t)
	s.F.Inv(&n, &n)
	s.F.Mul(&z.A, &x.A, &n)
	s.F.Neg(&t, &x.B)
	s.F.Mul(&z.B, &t, &n)
}

func (x *Fp2) IsZero() bool { return x.A.IsZero() && x.B.IsZero() }

// Small is an integer constant.
func (s *Set) Small(v int64) Fp2 { return Fp2{A: s.F.Int(v)} }

// Pt is a point of the Kummer line.
type Pt struct{ X, Z Fp2 }

// Affine is X/Z.
func (s *Set) Affine(p *Pt) Fp2 {
	var r Fp2
	s.Inv(&r, &p.Z)
	s.Mul(&r, &r, &p.X)
	return r
}

// Dbl on y^2=x^3+Ax^2+x: X' = (X^2-Z^2)^2, Z' = 4XZ(X^2+AXZ+Z^2).
func (s *Set) Dbl(p *Pt, A *Fp2) Pt {
	var xx, zz, xz, t, u Fp2
	var r Pt
	s.Mul(&xx, &p.X, &p.X)
	s.Mul(&zz, &p.Z, &p.Z)
	s.Mul(&xz, &p.X, &p.Z)
	s.Sub(&t, &xx, &zz)
	s.Mul(&r.X, &t, &t)
	s.Mul(&u, A, &xz)
	s.Add(&u, &u, &xx)
	s.Add(&u, &u, &zz)
	s.Mul(&u, &u, &xz)
	s.Add(&u, &u, &u)
	s.Add(&r.Z, &u, &u)
	return r
}

// Dadd is the differential addition p+q given d=p-q:
// X = Zd (XpXq - ZpZq)^2, Z = Xd (XpZq - ZpXq)^2.
func (s *Set) Dadd(p, q, d *Pt) Pt {
	var a, b, c, e Fp2
	var r Pt
	s.Mul(&a, &p.X, &q.X)
	s.Mul(&b, &p.Z, &q.Z)
	s.Mul(&c, &p.X, &q.Z)
	s.Mul(&e, &p.Z, &q.X)
	s.Sub(&a, &a, &b)
	s.Sub(&c, &c, &e)
	s.Mul(&a, &a, &a)
	s.Mul(&c, &c, &c)
	s.Mul(&r.X, &a, &d.Z)
	s.Mul(&r.Z, &c, &d.X)
	return r
}

// Trp is tripling as p+2p.
func (s *Set) Trp(p *Pt, A *Fp2) Pt {
	d := s.Dbl(p, A)
	return s.Dadd(&d, p, p)
}

// Ladder3 is x(P+[m]Q) from affine x(P), x(Q), x(P-Q).
func (s *Set) Ladder3(xP, xQ, xPQ, A *Fp2, m *big.Int) Pt {
	q := Pt{*xQ, s.One}  // 2^i Q
	p := Pt{*xP, s.One}  // P + m_i Q
	r := Pt{*xPQ, s.One} // q - p, that is (P + m_i Q) - 2^i Q
	for i := 0; i < m.BitLen(); i++ {
		if m.Bit(i) == 1 {
			p = s.Dadd(&p, &q, &r)
		} else {
			r = s.Dadd(&r, &q, &p)
		}
		q = s.Dbl(&q, A)
	}
	return p
}

// Mul is x([m]P), m>=0.
func (s *Set) MulPt(p *Pt, A *Fp2, m *big.Int) Pt {
	r0, r1 := Pt{X: s.One}, *p
	for i := m.BitLen() - 1; i >= 0; i-- {
		t := s.Dadd(&r0, &r1, p)
		if m.Bit(i) == 1 {
			r1 = s.Dbl(&r1, A)
			r0 = t
		} else {
			r0 = s.Dbl(&r0, A)
			r1 = t
		}
	}
	return r0
}

// iso4 is the isogeny with kernel <(x4, .)> of order 4 and its target.
func (s *Set) iso4(x4 *Fp2, pts []Pt) Fp2 {
	var x42 Fp2
	s.Sqr(&x42, x4)
	for i := range pts {
		// x' = -(x x4^2 + x - 2x4) x (x x4-1)^2 / ((x-x4)^2 (2 x x4 - x4^2 - 1))
		X, Z := pts[i].X, pts[i].Z
		var a, b, c, d, t Fp2
		s.Mul(&a, &X, &x42)
		s.Add(&a, &a, &X)
		s.Mul(&t, x4, &Z)
		s.Sub(&a, &a, &t)
		s.Sub(&a, &a, &t) // X x4^2 + X - 2 x4 Z
		s.Mul(&b, &X, x4)
		s.Sub(&b, &b, &Z) // X x4 - Z
		s.Sub(&c, &X, &t) // X - x4 Z
		s.Mul(&d, &X, x4)
		s.Add(&d, &d, &d)
		s.Mul(&t, &x42, &Z)
		s.Sub(&d, &d, &t)
		s.Sub(&d, &d, &Z) // 2 X x4 - x4^2 Z - Z
		s.Mul(&a, &a, &X)
		s.Mul(&b, &b, &b)
		s.Mul(&a, &a, &b)
		s.Neg(&pts[i].X, &a)
		s.Mul(&c, &c, &c)
		s.Mul(&c, &c, &d)
		s.Mul(&pts[i].Z, &c, &Z)
	}
	var r Fp2
	s.Sqr(&r, &x42)
	s.Add(&r, &r, &r)
	s.Add(&r, &r, &r)
	two := s.Small(2)
	s.Sub(&r, &r, &two)
	return r
}

// iso3 is the isogeny with kernel <(x3, .)> of order 3.
func (s *Set) iso3(x3, A *Fp2, pts []Pt) Fp2 {
	for i := range pts {
		// x' = x (x x3 - 1)^2 / (x - x3)^2
		X, Z := pts[i].X, pts[i].Z
		var a, b, t Fp2
		s.Mul(&a, &X, x3)
		s.Sub(&a, &a, &Z)
		s.Mul(&a, &a, &a)
		s.Mul(&pts[i].X, &a, &X)
		s.Mul(&t, x3, &Z)
		s.Sub(&b, &X, &t)
		s.Mul(&b, &b, &b)
		s.Mul(&pts[i].Z, &b, &Z)
	}
	// a' = (a x3 - 6 x3^2 + 6) x3
	var r, t Fp2
	six := s.Small(6)
	s.Mul(&r, A, x3)
	s.Sqr(&t, x3)
	s.Mul(&t, &t, &six)
	s.Sub(&r, &r, &t)
	s.Add(&r, &r, &six)
	s.Mul(&r, &r, x3)
	return r
}

// walk quotients by <k>, of order 4^n (ell=4) or 3^n, and maps pts along.
// Points are divided in halves recursively.
func (s *Set) walk(ell, n int, k Pt, A *Fp2, pts []Pt) {
	if n == 0 {
		return
	}
	if n == 1 {
		x := s.Affine(&k)
		if ell == 4 {
			*A = s.iso4(&x, pts)
		} else {
			*A = s.iso3(&x, A, pts)
		}
		return
	}
	h := n / 2
	t := k
	for i := 0; i < n-h; i++ {
		if ell == 4 {
			t = s.Dbl(&t, A)
			t = s.Dbl(&t, A)
		} else {
			t = s.Trp(&t, A)
		}
	}
	all := append(append([]Pt{}, pts...), k)
	s.walk(ell, h, t, A, all)
	copy(pts, all)
	s.walk(ell, n-h, all[len(all)-1], A, pts)
}

// Isogeny quotients the curve A by <P+[m]Q> of the full 2- (side 0) or
// 3-power (side 1) torsion given as x(P),x(Q),x(P-Q).
func (s *Set) Isogeny(side int, A Fp2, basis *[3]Fp2, m *big.Int, pts []Pt) Fp2 {
	k := s.Ladder3(&basis[0], &basis[1], &basis[2], &A, m)
	if side == 0 {
		s.walk(4, s.E2/2, k, &A, pts)
	} else {
		s.walk(3, s.E3, k, &A, pts)
	}
	return A
}

// Public is the public key (x-coordinates) of a private key.
func (s *Set) Public(side int, m *big.Int) [3]Fp2 {
	pts := make([]Pt, 3)
	for i := range pts {
		pts[i] = Pt{s.Base[1-side][i], s.One}
	}
	s.Isogeny(side, s.A0, &s.Base[side], m, pts)
	return [3]Fp2{s.Affine(&pts[0]), s.Affine(&pts[1]), s.Affine(&pts[2])}
}

// Coeff is the A of the curve on which the three abscissas are P, Q, P-Q:
// A = (1 - xPxQ - xPxR - xQxR)^2 / (4 xPxQxR) - xP - xQ - xR.
func (s *Set) Coeff(p *[3]Fp2) Fp2 {
	var a, b, c, t, r Fp2
	s.Mul(&a, &p[0], &p[1])
	s.Mul(&b, &p[0], &p[2])
	s.Mul(&c, &p[1], &p[2])
	s.Sub(&t, &s.One, &a)
	s.Sub(&t, &t, &b)
	s.Sub(&t, &t, &c)
	s.Mul(&t, &t, &t)
	s.Mul(&a, &a, &p[2])
	s.Add(&a, &a, &a)
	s.Add(&a, &a, &a)
	s.Inv(&a, &a)
	s.Mul(&r, &t, &a)
	for i := range p {
		s.Sub(&r, &r, &p[i])
	}
	return r
}

// J is 256 (A^2-3)^3 / (A^2-4).
func (s *Set) J(A *Fp2) Fp2 {
	var q, n, d, t Fp2
	s.Sqr(&q, A)
	t = s.Small(3)
	s.Sub(&n, &q, &t)
	s.Sqr(&t, &n)
	s.Mul(&n, &n, &t)
	t = s.Small(256)
	s.Mul(&n, &n, &t)
	t = s.Small(4)
	s.Sub(&d, &q, &t)
	s.Inv(&d, &d)
	s.Mul(&n, &n, &d)
	return n
}

// Secret is the shared secret j-invariant.
func (s *Set) Secret(side int, m *big.Int, pub *[3]Fp2) Fp2 {
	A := s.Coeff(pub)
	A = s.Isogeny(side, A, pub, m, nil)
	return s.J(&A)
}

func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

// LE reads a little-endian integer.
func LE(b []byte) *big.Int { return new(big.Int).SetBytes(rev(b)) }

// ToLE writes n bytes.
func ToLE(v *big.Int, n int) []byte { return rev(v.FillBytes(make([]byte, n))) }

// Enc writes field elements.
func (s *Set) Enc(xs ...Fp2) []byte {
	var r []byte
	for i := range xs {
		r = append(r, ToLE(s.F.Out(&xs[i].A), s.Len)...)
		r = append(r, ToLE(s.F.Out(&xs[i].B), s.Len)...)
	}
	return r
}

// Dec reads one field element (reducing it).
func (s *Set) Dec(b []byte) Fp2 {
	return Fp2{s.F.In(LE(b[:s.Len])), s.F.In(LE(b[s.Len : 2*s.Len]))}
}

// DecPub reads a public key.
func (s *Set) DecPub(b []byte) (r [3]Fp2) {
	for i := range r {
		r[i] = s.Dec(b[2*s.Len*i : 2*s.Len*(i+1)])
	}
	return
}

func shake(n int, parts ...[]byte) []byte {
	h := sha3.NewSHAKE256()
	for _, p := range parts {
		h.Write(p)
	}
	r := make([]byte, n)
	h.Read(r)
	return r
}

// Ephemeral is the scalar r = G(m||pk) reduced to the key space.
func (s *Set) Ephemeral(m, pk []byte) *big.Int {
	v := LE(shake(s.Bytes[0], m, pk))
	return v.Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(s.Bits[0])))
}

// Encaps of the KEM: ciphertext and key.
func (s *Set) Encaps(m, pk []byte) (ct, key []byte) {
	r := s.Ephemeral(m, pk)
	c0 := s.Public(0, r)
	p := s.DecPub(pk)
	j := s.Secret(0, r, &p)
	h := shake(s.Msg, s.Enc(j))
	for i := range h {
		h[i] ^= m[i]
	}
	ct = append(s.Enc(c0[0], c0[1], c0[2]), h...)
	return ct, shake(s.Kem, m, ct)
}

// Decaps of the KEM for a ciphertext whose first part is a point set on a
// supersingular curve.
func (s *Set) Decaps(S []byte, sk *big.Int, pk, ct []byte) []byte {
	c0 := s.DecPub(ct)
	j := s.Secret(1, sk, &c0)
	m := shake(s.Msg, s.Enc(j))
	for i := range m {
		m[i] ^= ct[s.PkLen()+i]
	}
	r := s.Ephemeral(m, pk)
	w := s.Public(0, r)
	if string(s.Enc(w[0], w[1], w[2])) == string(ct[:s.PkLen()]) {
		return shake(s.Kem, m, ct)
	}
	return shake(s.Kem, S, ct)
}

// Reject is the key of a ciphertext that does not decrypt to itself.
func (s *Set) Reject(S, ct []byte) []byte { return shake(s.Kem, S, ct) }

// Shake256 is exported for other oracles.
func Shake256(n int, parts ...[]byte) []byte { return shake(n, parts...) }

// Shake128 likewise.
func Shake128(n int, parts ...[]byte) []byte {
	h := sha3.NewSHAKE128()
	for _, p := range parts {
		h.Write(p)
	}
	r := make([]byte, n)
	h.Read(r)
	return r
}

// SelfCheck verifies orders and independence of the base points and that two
// parties agree.
func (s *Set) SelfCheck() error {
	if err := s.F.SelfCheck(); err != nil {
		return err
	}
	for side := 0; side < 2; side++ {
		A := s.Coeff(&s.Base[side])
		if A != s.A0 {
			return errors.New("sidhref: base points not on the starting curve")
		}
		for i := 0; i < 3; i++ {
			p := Pt{s.Base[side][i], s.One}
			n := s.E2
			if side == 1 {
				n = s.E3
			}
			for j := 0; j < n; j++ {
				if p.Z.IsZero() {
					return errors.New("sidhref: order too small")
				}
				if side == 0 {
					p = s.Dbl(&p, &A)
				} else {
					p = s.Trp(&p, &A)
				}
			}
			if !p.Z.IsZero() {
				return errors.New("sidhref: order too big")
			}
		}
	}
	a, b := big.NewInt(0x123456789abcdef), big.NewInt(0xfedcba987654321)
	pa, pb := s.Public(0, a), s.Public(1, b)
	if s.Secret(0, a, &pb) != s.Secret(1, b, &pa) {
		return errors.New("sidhref: no agreement")
	}
	return nil
}
