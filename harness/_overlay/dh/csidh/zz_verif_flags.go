//go:build hk_csidhflags

package csidh

// ZzVerifSetCPU selects the code paths used on CPUs with the given features.
func ZzVerifSetCPU(bmi2, adx bool) {
	hasBMI2 = bmi2
	hasADXandBMI2 = bmi2 && adx
}
