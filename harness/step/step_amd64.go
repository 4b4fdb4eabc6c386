// Package step observes which machine instructions of the library are
// executed: the processor is put into single step mode and a signal handler
// notes the address of every instruction.
package step

import (
	"debug/elf"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"
)

// layout known to step_amd64.s
var state struct {
	base, size   uintptr
	tab          *byte
	hash, n      uint64
	mask         uint64
	marks        *uint64
	nmarks, cmks uint64
	first        uint64
	rec          *uint64
	nrec, crec   uint64
}

func addrs() (handler, restorer uintptr)
func on()
func off()

// Every so many instructions a mark is kept.
const Every = 4096

var (
	tab   []byte
	marks [1 << 16]uint64
	rec   [Every + 1]uint64
	gc    int
	ready bool
)

// Init finds the library's code. It can be called repeatedly.
func Init() error {
	if ready {
		return nil
	}
	f, err := elf.Open("/proc/self/exe")
	if err != nil {
		return err
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil {
		return err
	}
	text := f.Section(".text")
	if text == nil {
		return errors.New("no text section")
	}
	code, err := text.Data()
	if err != nil {
		return err
	}
	tab = make([]byte, text.Size)
	off := uint64(0)
	for _, s := range syms {
		if s.Name == "verif/step.Init" {
			pc, _, _, _ := runtime.Caller(0)
			off = uint64(runtime.FuncForPC(pc).Entry()) - s.Value
		}
	}
	n := 0
	for _, s := range syms {
		if elf.ST_TYPE(s.Info) == elf.STT_FUNC && (strings.HasPrefix(s.Name, "github.com/henrydcase/nobs/") || strings.HasPrefix(s.Name, "mkem.")) &&
			s.Value >= text.Addr && s.Value+s.Size <= text.Addr+text.Size {
			a, b := s.Value-text.Addr, s.Value-text.Addr+s.Size
			for i := a; i < b; i++ {
				tab[i] = 1
			}
			skipStackCheck(code[a:b], tab[a:b])
			n++
		}
	}
	if n == 0 {
		return errors.New("no symbols of the library")
	}
	state.base, state.size, state.tab = uintptr(text.Addr+off), uintptr(text.Size), &tab[0]
	state.mask, state.marks, state.cmks, state.rec = Every-1, &marks[0], uint64(len(marks)), &rec[0]
	h, r := addrs()
	sa := struct{ handler, flags, restorer, mask uintptr }{h, 0x4 | 0x08000000 | 0x04000000, r, ^uintptr(0)}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(syscall.SIGTRAP), uintptr(unsafe.Pointer(&sa)), 0, 8, 0, 0); e != 0 {
		return fmt.Errorf("sigaction: %v", e)
	}
	if !strings.Contains(os.Getenv("GODEBUG"), "asyncpreemptoff=1") {
		return errors.New("needs GODEBUG=asyncpreemptoff=1")
	}
	ready = true
	return nil
}

// skipStackCheck leaves out what a function does to get a larger stack, which
// also happens when the scheduler wants to interrupt the program:
// CMPQ SP, 16(R14) or CMPQ R12, 16(R14); JLS to a block at the end of the function
func skipStackCheck(code, tab []byte) {
	for i := 0; i < 40 && i+10 <= len(code); i++ {
		if c := code[i:]; (c[0] == 0x49 || c[0] == 0x4d) && c[1] == 0x3b && c[2] == 0x66 && c[3] == 0x10 {
			end, to := 0, 0
			switch {
			case c[4] == 0x76:
				end = i + 6
				to = end + int(int8(c[5]))
			case c[4] == 0x0f && c[5] == 0x86:
				end = i + 10
				to = end + int(int32(binary.LittleEndian.Uint32(c[6:])))
			}
			if end < to && to < len(code) {
				clear(tab[:end])
				clear(tab[to:])
			}
			return
		}
	}
}

// Start begins to observe. From instruction number first on, keep of them are recorded.
func Start(first uint64, keep int) {
	gc = debug.SetGCPercent(-1)
	runtime.LockOSThread()
	state.hash, state.n, state.nmarks, state.nrec = 0, 0, 0, 0
	state.first, state.crec = first, uint64(keep)
	on()
}

// Stop ends it and returns a digest and the number of instructions.
func Stop() (hash, n uint64) {
	off()
	runtime.UnlockOSThread()
	debug.SetGCPercent(gc)
	return state.hash, state.n
}

// Marks are the digests after every so many instructions.
func Marks() []uint64 { return append([]uint64{}, marks[:state.nmarks]...) }

// Rec is what was recorded.
func Rec() (r [][2]uint64) {
	for _, v := range rec[:state.nrec] {
		r = append(r, [2]uint64{v, 0})
	}
	return
}

// Pos describes an instruction.
func Pos(pc uint64) string {
	f := runtime.FuncForPC(uintptr(pc))
	if f == nil {
		return fmt.Sprintf("%#x", pc)
	}
	file, line := f.FileLine(uintptr(pc))
	return fmt.Sprintf("%s+%#x (%s:%d)", f.Name(), uintptr(pc)-f.Entry(), file[strings.LastIndexByte(file, '/')+1:], line)
}
