// +build amd64,!noasm

package utils

import (
	"fmt"
	"os"
	"strings"
)

// ZzFake tells that CPUID is simulated.
const ZzFake = true

// zzFakeCpuid answers from VERIF_CPUID="leaf.sub=eax.ebx.ecx.edx;..." (hex)
func zzFakeCpuid(eaxArg, ecxArg uint32) (eax, ebx, ecx, edx uint32) {
	for _, e := range strings.Split(os.Getenv("VERIF_CPUID"), ";") {
		var l, s, a, b, c, d uint32
		if n, _ := fmt.Sscanf(e, "%x.%x=%x.%x.%x.%x", &l, &s, &a, &b, &c, &d); n == 6 && l == eaxArg && s == ecxArg {
			return a, b, c, d
		}
	}
	return 0, 0, 0, 0
}
