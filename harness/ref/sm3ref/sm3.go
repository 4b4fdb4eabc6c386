// Package sm3ref is a direct transcription of GB/T 32905-2016 (SM3).
package sm3ref

import (
	"encoding/binary"
	"math/bits"
)

var iv = [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}

// H is a running hash that only takes whole blocks until Finish.
type H struct {
	v [8]uint32
	n uint64
}

func New() *H { return &H{v: iv} }

func p0(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 9) ^ bits.RotateLeft32(x, 17) }
func p1(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 15) ^ bits.RotateLeft32(x, 23) }

func (h *H) block(b []byte) {
	var w [68]uint32
	var w1 [64]uint32
	for j := 0; j < 16; j++ {
		w[j] = binary.BigEndian.Uint32(b[4*j:])
	}
	for j := 16; j < 68; j++ {
		w[j] = p1(w[j-16]^w[j-9]^bits.RotateLeft32(w[j-3], 15)) ^ bits.RotateLeft32(w[j-13], 7) ^ w[j-6]
	}
	for j := 0; j < 64; j++ {
		w1[j] = w[j] ^ w[j+4]
	}
	A, B, C, D, E, F, G, HH := h.v[0], h.v[1], h.v[2], h.v[3], h.v[4], h.v[5], h.v[6], h.v[7]
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		ss1 := bits.RotateLeft32(bits.RotateLeft32(A, 12)+E+bits.RotateLeft32(t, j%32), 7)
		ss2 := ss1 ^ bits.RotateLeft32(A, 12)
		var ff, gg uint32
		if j < 16 {
			ff, gg = A^B^C, E^F^G
		} else {
			ff, gg = (A&B)|(A&C)|(B&C), (E&F)|(^E&G)
		}
		tt1 := ff + D + ss2 + w1[j]
		tt2 := gg + HH + ss1 + w[j]
		D, C, B, A = C, bits.RotateLeft32(B, 9), A, tt1
		HH, G, F, E = G, bits.RotateLeft32(F, 19), E, p0(tt2)
	}
	for i, x := range []uint32{A, B, C, D, E, F, G, HH} {
		h.v[i] ^= x
	}
}

// Blocks takes a multiple of 64 bytes.
func (h *H) Blocks(b []byte) {
	h.n += uint64(len(b))
	for ; len(b) >= 64; b = b[64:] {
		h.block(b)
	}
}

// Finish hashes the rest (any length) and returns the digest.
func (h *H) Finish(b []byte) []byte {
	n := h.n + uint64(len(b))
	m := append(append([]byte{}, b...), 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	m = binary.BigEndian.AppendUint64(m, n*8)
	for ; len(m) > 0; m = m[64:] {
		h.block(m)
	}
	out := make([]byte, 32)
	for i, x := range h.v {
		binary.BigEndian.PutUint32(out[4*i:], x)
	}
	return out
}

// Sum is the one-shot hash.
func Sum(msg []byte) []byte {
	h := New()
	k := len(msg) / 64 * 64
	h.Blocks(msg[:k])
	return h.Finish(msg[k:])
}
