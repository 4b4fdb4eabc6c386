//go:build hk_csidhfp

package csidh

type ZzFp = [8]uint64

func ZzMulRdc(r, x, y *ZzFp)                   { mulRdc((*fp)(r), (*fp)(x), (*fp)(y)) }
func ZzAddRdc(r, x, y *ZzFp)                   { addRdc((*fp)(r), (*fp)(x), (*fp)(y)) }
func ZzSubRdc(r, x, y *ZzFp)                   { subRdc((*fp)(r), (*fp)(x), (*fp)(y)) }
func ZzMul512(r, x *ZzFp, c uint64)            { mul512((*fp)(r), (*fp)(x), c) }
func ZzMul576(r *[9]uint64, x *ZzFp, c uint64) { mul576(r, (*fp)(x), c) }
func ZzCswap(x, y *ZzFp, c uint8)              { cswap512((*fp)(x), (*fp)(y), c) }
func ZzExp512(r, b, e *ZzFp)                   { modExpRdc512((*fp)(r), (*fp)(b), (*fp)(e)) }
func ZzExp64(r, b *ZzFp, e uint64)             { modExpRdc64((*fp)(r), (*fp)(b), e) }
func ZzIsLess(x, y *ZzFp) bool                 { return isLess((*fp)(x), (*fp)(y)) }
func ZzNonRes(x *ZzFp) int                     { return (*fp)(x).isNonQuadRes() }
func ZzIsZero(x *ZzFp) bool                    { return (*fp)(x).isZero() }
func ZzEqual(x, y *ZzFp) bool                  { return (*fp)(x).equal((*fp)(y)) }
