//go:build hk_csidhflags

package checks

import "github.com/henrydcase/nobs/dh/csidh"

func init() { csidhSetCPU = csidh.ZzVerifSetCPU }
