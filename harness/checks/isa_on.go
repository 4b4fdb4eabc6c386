//go:build verif_isa

package checks

import "github.com/henrydcase/nobs/utils"

func init() { isaUsed = utils.ZzUsed }
