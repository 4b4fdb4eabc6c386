// Package zzverif records which blocks run and which positions of slices and
// arrays are touched. It is laid over the repository together with the
// instrumented sources.
package zzverif

import (
	"bytes"
	"math/big"
	"reflect"
)

var (
	on   bool
	hash uint64
	n    uint64
	from uint64
	max  int

	// events kept
	Rec [][2]uint64
	// value of the hash after every MarkEvery events
	Marks []uint64
)

const MarkEvery = 1 << 14

// Start begins a trace. With max > 0 the events from number from on are kept.
func Start(first uint64, keep int) {
	on, hash, n, from, max, Rec, Marks = true, 0xcbf29ce484222325, 0, first, keep, nil, nil
}

// Stop ends a trace and returns its hash and number of events.
func Stop() (uint64, uint64) { on = false; return hash, n }

func ev(id uint32, v uint64) {
	if !on {
		return
	}
	h := hash ^ (uint64(id)<<32 + v)
	h *= 0x9e3779b97f4a7c15
	hash = h ^ h>>29
	if max > 0 && n >= from && len(Rec) < max {
		Rec = append(Rec, [2]uint64{uint64(id), v})
	}
	n++
	if n%MarkEvery == 0 {
		Marks = append(Marks, hash)
	}
}

// B is a block that is entered.
func B(id uint32) { ev(id, 0) }

// T and F stand before the right operand of && and ||.
func T(id uint32) bool { ev(id, 0); return true }
func F(id uint32) bool { ev(id, 0); return false }

// I is a position of a slice or array.
func I(id uint32, v int) int { ev(id, uint64(v)); return v }

// D is an operand of a division, whose time depends on it.
func D(id uint32, v uint64) uint64 { ev(id, v); return v }

// Eq is a comparison of composite values.
func Eq(id uint32, a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	d := 0
	switch x.Kind() {
	case reflect.Array, reflect.String:
		l := x.Len()
		if y.Len() < l {
			l = y.Len()
		}
		for d < l && x.Index(d).Interface() == y.Index(d).Interface() {
			d++
		}
	default:
		if a == b {
			d = 1
		}
	}
	ev(id, uint64(d))
	return a == b
}

func diff(a, b []byte) uint64 {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return uint64(i)
}

// BytesEqual and BytesCompare stop at the first difference.
func BytesEqual(id uint32) func(a, b []byte) bool {
	return func(a, b []byte) bool { ev(id, diff(a, b)); return bytes.Equal(a, b) }
}
func BytesCompare(id uint32) func(a, b []byte) int {
	return func(a, b []byte) int { ev(id, diff(a, b)); return bytes.Compare(a, b) }
}

// Big is an operand of an operation on integers of any size.
func Big(id uint32, v *big.Int) *big.Int {
	if v == nil {
		return v
	}
	for _, w := range v.Bits() {
		ev(id, uint64(w))
	}
	return v
}
func DeepEqual(id uint32) func(a, b interface{}) bool {
	return func(a, b interface{}) bool {
		r := reflect.DeepEqual(a, b)
		if r {
			ev(id, 1)
		} else {
			ev(id, 0)
		}
		return r
	}
}
