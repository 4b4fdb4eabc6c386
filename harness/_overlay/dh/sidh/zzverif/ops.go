//go:build hk_sidhfp

// Package zzverif gives tests access to field arithmetic.
package zzverif

import (
	. "github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/dh/sidh/internal/p434"
	"github.com/henrydcase/nobs/dh/sidh/internal/p503"
	"github.com/henrydcase/nobs/dh/sidh/internal/p751"
)

// Ops are the field operations of one prime.
type Ops struct {
	Cswap            func(x, y *Fp, c uint8)
	Add, Sub         func(z, x, y *Fp)
	Adl, Sul         func(z, x, y *FpX2)
	Mod              func(x *Fp)
	Mul              func(z *FpX2, x, y *Fp)
	Rdc              func(z *Fp, x *FpX2)
	Add2, Sub2, Mul2 func(z, x, y *Fp2)
	Sqr2, Inv2       func(z, x *Fp2)
	To, From         func(z, x *Fp2)
}

// Table of all primes.
var Table = map[int]*Ops{
	434: {p434.ZzCswap, p434.ZzAdd, p434.ZzSub, p434.ZzAdl, p434.ZzSul, p434.ZzMod, p434.ZzMul, p434.ZzRdc, p434.ZzAdd2, p434.ZzSub2, p434.ZzMul2, p434.ZzSqr2, p434.ZzInv2, p434.ToMontgomery, p434.FromMontgomery},
	503: {p503.ZzCswap, p503.ZzAdd, p503.ZzSub, p503.ZzAdl, p503.ZzSul, p503.ZzMod, p503.ZzMul, p503.ZzRdc, p503.ZzAdd2, p503.ZzSub2, p503.ZzMul2, p503.ZzSqr2, p503.ZzInv2, p503.ToMontgomery, p503.FromMontgomery},
	751: {p751.ZzCswap, p751.ZzAdd, p751.ZzSub, p751.ZzAdl, p751.ZzSul, p751.ZzMod, p751.ZzMul, p751.ZzRdc, p751.ZzAdd2, p751.ZzSub2, p751.ZzMul2, p751.ZzSqr2, p751.ZzInv2, p751.ToMontgomery, p751.FromMontgomery},
}
