// Package checks holds the properties and their oracles.
package checks

import (
	"strconv"

	"verif/core"
)

// Use keeps the package linked in.
func Use() {}

func seedBase() uint64 {
	n, _ := strconv.Atoi(core.Env("VERIF_SEED", "1"))
	return uint64(n) * 1000003
}
