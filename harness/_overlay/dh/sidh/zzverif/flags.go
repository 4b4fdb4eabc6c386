//go:build hk_sidhflags

package zzverif

import (
	"github.com/henrydcase/nobs/dh/sidh/internal/p503"
	"github.com/henrydcase/nobs/dh/sidh/internal/p751"
)

// SetCPU selects the code paths used on CPUs with the given features.
func SetCPU(bmi2, adx bool) {
	p503.HasBMI2, p503.HasADXandBMI2 = bmi2, bmi2 && adx
	p751.HasBMI2, p751.HasADXandBMI2 = bmi2, bmi2 && adx
}
