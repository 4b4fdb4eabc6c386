//go:build hk_sidhflags434

package checks

import "github.com/henrydcase/nobs/dh/sidh/zzverif"

func init() { sidhSet434 = zzverif.Set434 }
