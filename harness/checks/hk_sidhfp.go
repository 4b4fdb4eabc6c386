//go:build hk_sidhfp

package checks

import "github.com/henrydcase/nobs/dh/sidh/zzverif"

func init() {
	sidhFp = map[int]*sidhFpOps{}
	for n, o := range zzverif.Table {
		sidhFp[n] = &sidhFpOps{o.Cswap, o.Add, o.Sub, o.Adl, o.Sul, o.Mod, o.Mul, o.Rdc, o.Add2, o.Sub2, o.Mul2, o.Sqr2, o.Inv2, o.To, o.From}
	}
}
