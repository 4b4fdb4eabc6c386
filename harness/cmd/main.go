package main

import (
	"verif/checks"
	"verif/core"
)

func main() {
	checks.Use()
	core.Main()
}
