//go:build hk_sidhfp

package p503

import "github.com/henrydcase/nobs/dh/sidh/common"

func ZzCswap(x, y *common.Fp, c uint8)      { cswapP503(x, y, c) }
func ZzAdd(z, x, y *common.Fp)              { addP503(z, x, y) }
func ZzSub(z, x, y *common.Fp)              { subP503(z, x, y) }
func ZzAdl(z, x, y *common.FpX2)            { adlP503(z, x, y) }
func ZzSul(z, x, y *common.FpX2)            { sulP503(z, x, y) }
func ZzMod(x *common.Fp)                    { modP503(x) }
func ZzMul(z *common.FpX2, x, y *common.Fp) { mulP503(z, x, y) }
func ZzRdc(z *common.Fp, x *common.FpX2)    { rdcP503(z, x) }

func ZzAdd2(z, x, y *common.Fp2) { add(z, x, y) }
func ZzSub2(z, x, y *common.Fp2) { sub(z, x, y) }
func ZzMul2(z, x, y *common.Fp2) { mul(z, x, y) }
func ZzSqr2(z, x *common.Fp2)    { sqr(z, x) }
func ZzInv2(z, x *common.Fp2)    { inv(z, x) }
