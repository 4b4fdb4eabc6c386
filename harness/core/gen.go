package core

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"

	"pgregory.net/rapid"
)

// Hex is a byte string that is written as hex in replay files.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	*h = d
	return err
}

// PRNG is splitmix64; used to expand generated seeds into bulk data.
type PRNG struct{ s uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{seed} }
func (p *PRNG) U64() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (p *PRNG) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := p.U64()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}
func (p *PRNG) Intn(n int) int { return int(p.U64() % uint64(n)) }

// Blob is a description of a byte string.
type Blob struct {
	Kind string `json:"k"`
	Len  int    `json:"n"`
	Seed uint64 `json:"s,omitempty"`
	Raw  Hex    `json:"raw,omitempty"`
}

// Bytes expands the blob.
func (b Blob) Bytes() []byte {
	out := make([]byte, b.Len)
	switch b.Kind {
	case "raw":
		copy(out, b.Raw)
	case "zero":
	case "ff":
		for i := range out {
			out[i] = 0xff
		}
	case "count":
		for i := range out {
			out[i] = byte(i)
		}
	case "bit": // a single bit is set
		if b.Len > 0 {
			i := int(b.Seed % uint64(b.Len*8))
			out[i/8] = 1 << uint(i%8)
		}
	case "nbit": // a single bit is clear
		for i := range out {
			out[i] = 0xff
		}
		if b.Len > 0 {
			i := int(b.Seed % uint64(b.Len*8))
			out[i/8] ^= 1 << uint(i%8)
		}
	case "limbs": // every 64-bit limb is an edge value or random
		p := NewPRNG(b.Seed)
		for i := 0; i < len(out); i += 8 {
			var v uint64
			switch p.Intn(8) {
			case 0, 1:
				v = 0
			case 2, 3:
				v = ^uint64(0)
			case 4:
				v = 1
			case 5:
				v = 1 << 63
			case 6:
				v = ^uint64(0) >> 1
			default:
				v = p.U64()
			}
			for j := i; j < i+8 && j < len(out); j++ {
				out[j] = byte(v)
				v >>= 8
			}
		}
	case "low": // random below a random bit length, little-endian
		p := NewPRNG(b.Seed)
		if b.Len > 0 {
			nb := p.Intn(b.Len*8 + 1)
			p.Fill(out)
			for i := range out {
				if i*8 >= nb {
					out[i] = 0
				} else if nb-i*8 < 8 {
					out[i] &= 1<<uint(nb-i*8) - 1
				}
			}
		}
	case "runs": // long runs of ones and zeros
		p := NewPRNG(b.Seed)
		bit, left := byte(p.U64()&1), 0
		for i := 0; i < len(out)*8; i++ {
			if left == 0 {
				bit ^= 1
				left = 1 + p.Intn(70)
			}
			out[i/8] |= bit << uint(i%8)
			left--
		}
	default:
		NewPRNG(b.Seed).Fill(out)
	}
	return out
}

var blobKinds = []string{"rnd", "rnd", "rnd", "zero", "ff", "bit", "nbit", "limbs", "limbs", "low", "runs", "count"}

// DrawBlob draws a byte string of given length, biased to edge shapes.
func DrawBlob(t *rapid.T, label string, n int) Blob {
	k := rapid.SampledFrom(blobKinds).Draw(t, label+".kind")
	var s uint64
	if k != "zero" && k != "ff" && k != "count" {
		s = rapid.Uint64().Draw(t, label+".seed")
	}
	return Blob{Kind: k, Len: n, Seed: s}
}

// RndBlob draws a uniformly random byte string.
func RndBlob(t *rapid.T, label string, n int) Blob {
	return Blob{Kind: "rnd", Len: n, Seed: rapid.Uint64().Draw(t, label+".seed")}
}

// RawBlob wraps bytes.
func RawBlob(b []byte) Blob { return Blob{Kind: "raw", Len: len(b), Raw: append([]byte{}, b...)} }

// BudgetExceeded is the panic of a reader asked for an absurd amount of data.
type BudgetExceeded struct{ N int }

// ErrRNG is what a failing reader returns.
var ErrRNG = errors.New("injected RNG failure")

// RNG describes a source of randomness: an optional prefix, then a
// pseudo-random stream, handed out in given chunk sizes, failing after a given
// number of bytes.
type RNG struct {
	Seed   uint64 `json:"seed"`
	Prefix []Blob `json:"prefix,omitempty"`
	// sizes of consecutive reads; 0 means an empty read without an error.
	Chunks []int `json:"chunks,omitempty"`
	// FailAt<0: never fails
	FailAt int `json:"fail"`
	// error is returned together with the last bytes
	FailWithData bool   `json:"failwithdata,omitempty"`
	ErrKind      string `json:"err,omitempty"`
	Budget       int    `json:"-"`
}

// GoodRNG never fails and fills every read.
func GoodRNG(seed uint64) RNG { return RNG{Seed: seed, FailAt: -1} }

// Reader is the running RNG.
type Reader struct {
	r       RNG
	pre     []byte
	p       *PRNG
	buf     []byte
	N       int // bytes delivered
	Calls   int
	Failed  bool // error was returned at least once
	Hook    func()
	Log     []byte
	KeepLog bool
}

func (r RNG) New() *Reader {
	x := &Reader{r: r, p: NewPRNG(r.Seed)}
	for _, b := range r.Prefix {
		x.pre = append(x.pre, b.Bytes()...)
	}
	if x.r.Budget == 0 {
		x.r.Budget = 4 << 20
	}
	return x
}

func (x *Reader) next(b []byte) {
	for i := range b {
		if len(x.pre) > 0 {
			b[i] = x.pre[0]
			x.pre = x.pre[1:]
			continue
		}
		if len(x.buf) == 0 {
			x.buf = make([]byte, 8)
			x.p.Fill(x.buf)
		}
		b[i] = x.buf[0]
		x.buf = x.buf[1:]
	}
}

func (x *Reader) fail() error {
	x.Failed = true
	switch x.r.ErrKind {
	case "eof":
		return io.EOF
	case "ueof":
		return io.ErrUnexpectedEOF
	}
	return ErrRNG
}

// Read implements io.Reader.
func (x *Reader) Read(b []byte) (int, error) {
	x.Calls++
	if x.Hook != nil {
		x.Hook()
	}
	n := len(b)
	if len(x.r.Chunks) > 0 && x.Calls <= 100000 {
		if c := x.r.Chunks[(x.Calls-1)%len(x.r.Chunks)]; c < n {
			n = c
		}
	}
	var err error
	if x.r.FailAt >= 0 {
		left := x.r.FailAt - x.N
		if left == 0 && len(b) > 0 {
			return 0, x.fail()
		}
		if n >= left {
			n = left
			if x.r.FailWithData {
				err = x.fail()
			}
		}
	}
	x.next(b[:n])
	if x.KeepLog {
		x.Log = append(x.Log, b[:n]...)
	}
	x.N += n
	if x.N > x.r.Budget || x.Calls > 4*x.r.Budget {
		panic(BudgetExceeded{x.N})
	}
	return n, err
}

// DrawChunks draws read sizes for short reads.
func DrawChunks(t *rapid.T, label string) []int {
	switch rapid.IntRange(0, 19).Draw(t, label+".mode") {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		return nil
	case 8, 9, 10, 11:
		return []int{1}
	case 12:
		// a source that has nothing to deliver for long
		return append(make([]int, 150), rapid.IntRange(1, 40).Draw(t, label+".after"))
	}
	c := rapid.SliceOfN(rapid.IntRange(0, 40), 1, 6).Draw(t, label)
	ok := false
	for _, v := range c {
		ok = ok || v > 0
	}
	if !ok {
		c = append(c, 1)
	}
	return c
}

// Guard is a buffer surrounded by canaries.
type Guard struct {
	full []byte
	off  int
	n    int
}

const guardPad = 64

// NewGuard allocates n bytes at a given misalignment, filled with dirt.
func NewGuard(n int, off int) *Guard {
	g := &Guard{full: make([]byte, n+2*guardPad+16), off: guardPad + off%16, n: n}
	for i := range g.full {
		g.full[i] = canary(i)
	}
	return g
}

func canary(i int) byte { return byte(0xA5 ^ (i * 7)) }

// B is the guarded buffer; its capacity ends where the buffer ends.
func (g *Guard) B() []byte { return g.full[g.off : g.off+g.n : g.off+g.n] }

// BCap is the buffer with spare capacity.
func (g *Guard) BCap() []byte { return g.full[g.off : g.off+g.n] }

// Check verifies the canaries around first used bytes.
func (g *Guard) Check(used int) error {
	for i, v := range g.full {
		if (i < g.off || i >= g.off+used) && v != canary(i) {
			return fmt.Errorf("byte at offset %d outside of the %d-byte output was changed", i-g.off, used)
		}
	}
	return nil
}

// Frozen remembers a value of a caller-owned buffer.
type Frozen struct {
	b, c []byte
	name string
}

func Freeze(name string, b []byte) Frozen { return Frozen{b, append([]byte{}, b...), name} }
func (f Frozen) Check() error {
	if !bytes.Equal(f.b, f.c) {
		return fmt.Errorf("caller's %s was modified", f.name)
	}
	return nil
}

// Short prints bytes for messages.
func Short(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x...(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%x", b)
}
