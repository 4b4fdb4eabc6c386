//go:build hk_aes

// Package zzverif gives the harness access to the internal AES package.
package zzverif

import "github.com/henrydcase/nobs/drbg/internal/aes"

type Cipher interface {
	SetKey(key []byte) error
	Encrypt(dst, src []byte)
	Decrypt(dst, src []byte)
}

func NewGo() Cipher  { return &aes.AES{} }
func NewAsm() Cipher { return &aes.AESAsm{} }
