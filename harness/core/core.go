// Package core is the property-checking framework shared by all checks: it
// drives generated cases through an oracle, shrinks failures with rapid,
// isolates crashes and hangs in worker processes and writes evidence.
package core

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Suite is one generator/oracle pair of a property.
type Suite struct {
	Name string
	// Number of cases per tier (total over all shards).
	Quick, Thorough int
	// Max number of worker processes the cases are split over.
	Shards int
	// Which build of the harness runs it: "" (default build), "noasm", "386",
	// "race".
	Config string
	// Builds that cases use besides.
	Needs []string
	// Names of the hook groups that must be compiled in.
	Hook string
	// Seconds a single case may take before it is considered to hang.
	CaseLimit int
	// How cases are made and which count as non-trivial.
	Rule string
	// Seconds rapid may spend shrinking.
	Shrink string
	// Env of the worker.
	Env []string

	gen  func(t *rapid.T) any
	enum func(tier string, emit func(any))
	dec  func([]byte) (any, error)
	run  func(c any, x *Ctx) error
}

// Prop is one property.
type Prop struct {
	ID          string
	Suites      []*Suite
	Assumptions []string
	Level       string
}

var Props = map[string]*Prop{}

func Register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	for _, s := range p.Suites {
		if s.Shards == 0 {
			s.Shards = 8
		}
		if s.CaseLimit == 0 {
			s.CaseLimit = 60
		}
		if s.Shrink == "" {
			s.Shrink = "15s"
		}
	}
	Props[p.ID] = p
}

// Gen makes a suite out of a generator of cases and an oracle.
func Gen[T any](s Suite, gen func(t *rapid.T) T, run func(c T, x *Ctx) error) *Suite {
	s.gen = func(t *rapid.T) any { return gen(t) }
	s.dec = func(b []byte) (any, error) { var v T; err := json.Unmarshal(b, &v); return v, err }
	s.run = func(c any, x *Ctx) error { return run(c.(T), x) }
	return &s
}

// Enum makes a suite out of an enumeration of cases.
func Enum[T any](s Suite, enum func(tier string, emit func(T)), run func(c T, x *Ctx) error) *Suite {
	s.enum = func(tier string, emit func(any)) { enum(tier, func(v T) { emit(v) }) }
	s.dec = func(b []byte) (any, error) { var v T; err := json.Unmarshal(b, &v); return v, err }
	s.run = func(c any, x *Ctx) error { return run(c.(T), x) }
	return &s
}

func (s *Suite) Decode(b []byte) (any, error) { return s.dec(b) }

// Ctx is handed to an oracle.
type Ctx struct {
	Tier   string
	nt     bool
	labels map[string]int
	known  map[string]string
	listed map[string]string
	Dir    string
}

// NT marks the case non-trivial.
func (x *Ctx) NT() { x.nt = true }

// Label classifies the case.
func (x *Ctx) Label(f string, a ...any) {
	if x.labels != nil {
		x.labels[fmt.Sprintf(f, a...)]++
	}
}

// Known reports a failure that may be a listed finding. It returns nil if it
// is, an error otherwise.
func (x *Ctx) Known(key string, format string, a ...any) error {
	if txt, ok := x.listed[key]; ok {
		x.known[key] = txt
		return nil
	}
	return fmt.Errorf("[%s] "+format, append([]any{key}, a...)...)
}

// Errf is shorthand for a violation.
func Errf(f string, a ...any) error { return fmt.Errorf(f, a...) }

// HarnessError is a failure of the machinery, not of the property.
type HarnessError struct{ Msg string }

func (h HarnessError) Error() string { return "harness: " + h.Msg }

// Skip is returned when a suite has nothing to decide on this build.
var ErrSkip = errors.New("skip")

// RunCase runs the oracle on one case and turns panics of the code under test
// into violations.
func (s *Suite) RunCase(c any, x *Ctx) (err error) {
	debug.SetPanicOnFault(true)
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(HarnessError); ok {
				err = he
				return
			}
			if b, ok := r.(BudgetExceeded); ok {
				err = fmt.Errorf("does not terminate: more than %d bytes of randomness consumed", b.N)
				return
			}
			st := string(debug.Stack())
			where, lib := panicOrigin()
			if lib {
				err = fmt.Errorf("panic in %s: %v", where, r)
			} else {
				err = HarnessError{fmt.Sprintf("panic in %s: %v\n%s", where, r, st)}
			}
		}
	}()
	return s.run(c, x)
}

// Caught is the outcome of a call expected to be refused with a panic.
type Caught struct {
	Panicked bool
	Val      any
}

// Try calls f and reports if it panicked.
func Try(f func()) (c Caught) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(BudgetExceeded); ok {
				panic(r)
			}
			if _, ok := r.(HarnessError); ok {
				panic(r)
			}
			c = Caught{true, r}
		}
	}()
	f()
	return
}

func panicOrigin() (string, bool) {
	var pcs [64]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		name := f.Function
		if name != "" && !strings.HasPrefix(name, "runtime.") && !strings.HasPrefix(name, "internal/") &&
			!strings.HasPrefix(name, "verif/core.(*Suite).RunCase") {
			lib := strings.Contains(name, "henrydcase/nobs") || strings.HasPrefix(name, "mkem.")
			hlp := !lib && !strings.HasPrefix(name, "verif/")
			if lib || !hlp {
				return fmt.Sprintf("%s (%s:%d)", name, f.File, f.Line), lib && !strings.Contains(name, "zzverif")
			}
			// a standard library frame: attribute to its caller
		}
		if !more {
			return "?", false
		}
	}
}

// Hash identifies a case.
func Hash(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() }

func Env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func SortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
