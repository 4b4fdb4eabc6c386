//go:build !amd64

package step

import "errors"

const Every = 4096

func Init() error                  { return errors.New("amd64 only") }
func Start(first uint64, keep int) {}
func Stop() (hash, n uint64)       { return }
func Marks() []uint64              { return nil }
func Rec() [][2]uint64             { return nil }
func Pos(uint64) string            { return "" }
