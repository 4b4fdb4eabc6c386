//go:build !amd64

// Package hwcpu asks the processor what it supports.
package hwcpu

func Flags() (f F) { return }
