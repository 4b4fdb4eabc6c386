package core

import (
	"os"
	"syscall"
)

// PageBuf is a buffer that ends where an inaccessible page starts, so that any
// access past its end faults.
type PageBuf struct {
	m []byte
	B []byte
}

// NewPage makes a PageBuf of n bytes.
func NewPage(n int) *PageBuf {
	pg := os.Getpagesize()
	k := (n + pg - 1) / pg * pg
	if k == 0 {
		k = pg
	}
	m, err := syscall.Mmap(-1, 0, k+pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(HarnessError{"mmap: " + err.Error()})
	}
	if err := syscall.Mprotect(m[k:], syscall.PROT_NONE); err != nil {
		panic(HarnessError{"mprotect: " + err.Error()})
	}
	return &PageBuf{m, m[k-n : k : k]}
}

// PageOf is a PageBuf holding a copy of b.
func PageOf(b []byte) *PageBuf {
	p := NewPage(len(b))
	copy(p.B, b)
	return p
}

func (p *PageBuf) Free() { syscall.Munmap(p.m) }
