//go:build hk_csidhfp

package checks

import "github.com/henrydcase/nobs/dh/csidh"

func init() {
	csidhFp = &csidhFpOps{
		csidh.ZzMulRdc, csidh.ZzAddRdc, csidh.ZzSubRdc, csidh.ZzMul512, csidh.ZzMul576, csidh.ZzCswap,
		csidh.ZzExp512, csidh.ZzExp64, csidh.ZzIsLess, csidh.ZzNonRes, csidh.ZzIsZero, csidh.ZzEqual,
	}
}
