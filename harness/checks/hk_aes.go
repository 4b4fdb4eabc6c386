//go:build hk_aes

package checks

import "github.com/henrydcase/nobs/drbg/zzverif"

func init() {
	aesGo = func() aesCipher { return zzverif.NewGo() }
	aesAsm = func() aesCipher { return zzverif.NewAsm() }
}
