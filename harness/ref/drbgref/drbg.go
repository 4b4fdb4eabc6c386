// Package drbgref is CTR_DRBG (SP 800-90A, 10.2.1, no derivation function) for
// AES-256, written over crypto/aes and math/big.
package drbgref

import (
	"crypto/aes"
	"math/big"
)

const SeedLen = 48

type D struct {
	Key [32]byte
	V   [16]byte
}

func (d *D) inc() {
	v := new(big.Int).SetBytes(d.V[:])
	v.Add(v, big.NewInt(1))
	v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1)))
	v.FillBytes(d.V[:])
}

func (d *D) block() []byte {
	c, err := aes.NewCipher(d.Key[:])
	if err != nil {
		panic(err)
	}
	o := make([]byte, 16)
	c.Encrypt(o, d.V[:])
	return o
}

func pad(b []byte) []byte {
	o := make([]byte, SeedLen)
	copy(o, b)
	return o
}

func (d *D) update(data []byte) {
	var t []byte
	for len(t) < SeedLen {
		d.inc()
		t = append(t, d.block()...)
	}
	for i := range t {
		t[i] ^= data[i]
	}
	copy(d.Key[:], t[:32])
	copy(d.V[:], t[32:])
}

func xor(a, b []byte) []byte {
	o := pad(a)
	for i, v := range pad(b) {
		o[i] ^= v
	}
	return o
}

func (d *D) Init(entropy, pers []byte) {
	*d = D{}
	d.update(xor(entropy, pers))
}

func (d *D) Reseed(entropy, ad []byte) { d.update(xor(entropy, ad)) }

func (d *D) Generate(n int, ad []byte) []byte {
	if len(ad) > 0 {
		d.update(pad(ad))
	}
	var t []byte
	for len(t) < n {
		d.inc()
		t = append(t, d.block()...)
	}
	d.update(pad(ad))
	return t[:n]
}
