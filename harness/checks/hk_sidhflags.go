//go:build hk_sidhflags

package checks

import "github.com/henrydcase/nobs/dh/sidh/zzverif"

func init() { sidhSetCPU = zzverif.SetCPU }
