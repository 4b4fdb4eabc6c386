//go:build hk_sidhflags434

package zzverif

import "github.com/henrydcase/nobs/dh/sidh/internal/p434"

// Set434 switches the MULX/ADX code of p434, which is off by default, on or off and returns the previous setting.
func Set434(adx bool) (old bool) {
	old, p434.HasADXandBMI2 = p434.HasADXandBMI2, adx
	return
}
