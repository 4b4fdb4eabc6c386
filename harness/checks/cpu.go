package checks

import (
	"encoding/json"
	"os"
	"os/exec"
	"runtime"
	"syscall"
	"unsafe"

	"github.com/henrydcase/nobs/utils"
	"pgregory.net/rapid"
	. "verif/core"
	"verif/ref/hwcpu"
)

type cpuOut struct {
	Lib, HW hwcpu.F
	CPU     int
}

func init() {
	Children["cpuflags"] = func(a []string) {
		f := utils.X86
		o := cpuOut{Lib: hwcpu.F{AES: f.HasAES, BMI2: f.HasBMI2, ADX: f.HasADX, RDSEED: f.HasRDSEED}, HW: hwcpu.Flags()}
		json.NewEncoder(os.Stdout).Encode(o)
	}
}

type hwCase struct {
	Core   int    `json:"core"`
	Config string `json:"build"`
}

func setAffinity(cpu int) error {
	var mask [16]uint64
	mask[cpu/64] |= 1 << uint(cpu%64)
	_, _, e := syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, unsafe.Sizeof(mask), uintptr(unsafe.Pointer(&mask[0])))
	if e != 0 {
		return e
	}
	return nil
}

func getAffinity() []int {
	var mask [16]uint64
	n, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, unsafe.Sizeof(mask), uintptr(unsafe.Pointer(&mask[0])))
	var r []int
	if e != 0 {
		return r
	}
	for i := 0; i < int(n)*8; i++ {
		if mask[i/64]>>(uint(i)%64)&1 == 1 {
			r = append(r, i)
		}
	}
	return r
}

// runHW starts a process on a given core, so that the library's start-up code
// runs there.
func runHW(c hwCase, x *Ctx) error {
	runtime.LockOSThread()
	old := getAffinity()
	if c.Core >= 0 {
		if err := setAffinity(c.Core); err != nil {
			x.Label("core not available")
			return nil
		}
	}
	cmd := exec.Command(BinFor(c.Config), "child", "cpuflags")
	b, err := cmd.Output()
	// restore
	if len(old) > 0 {
		var mask [16]uint64
		for _, i := range old {
			mask[i/64] |= 1 << uint(i%64)
		}
		syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, unsafe.Sizeof(mask), uintptr(unsafe.Pointer(&mask[0])))
	}
	if err != nil {
		return HarnessError{"child: " + err.Error()}
	}
	var o cpuOut
	if err := json.Unmarshal(b, &o); err != nil {
		return HarnessError{err.Error()}
	}
	if c.Config != "" {
		o.HW.Known = false
		if o.Lib != (hwcpu.F{}) {
			// a build without assembly may report features, but only real ones
			h := hwcpu.Flags()
			if o.Lib.AES && !h.AES || o.Lib.BMI2 && !h.BMI2 || o.Lib.ADX && !h.ADX || o.Lib.RDSEED && !h.RDSEED {
				return Errf("build %s reports features the CPU doesn't have: %+v", c.Config, o.Lib)
			}
		}
		x.NT()
		return nil
	}
	o.HW.Known = false
	if o.Lib != o.HW {
		return Errf("process started on core %d: the library detected %+v, the CPU has %+v", c.Core, o.Lib, o.HW)
	}
	x.NT()
	return nil
}

// fakeCase is a generated content of the CPUID leaves.
type fakeCase struct {
	Max    uint32               `json:"max"`
	Leaves map[string][4]uint32 `json:"leaves"`
}

func genFake(t *rapid.T) fakeCase {
	c := fakeCase{Leaves: map[string][4]uint32{}}
	c.Max = rapid.SampledFrom([]uint32{0, 1, 2, 5, 6, 7, 7, 7, 7, 8, 0xd, 0x16, 0x1f, 0x20}).Draw(t, "max")
	reg := func(l string) uint32 {
		switch rapid.IntRange(0, 4).Draw(t, l+".m") {
		case 0:
			return 0
		case 1:
			return 0xffffffff
		case 2:
			return 1 << uint(rapid.SampledFrom([]int{8, 18, 19, 25, 1, 0, 30, 31, 3, 5}).Draw(t, l+".b"))
		case 3:
			return ^uint32(0) ^ 1<<uint(rapid.SampledFrom([]int{8, 18, 19, 25, 1, 0, 30, 31, 3, 5}).Draw(t, l+".b"))
		}
		return rapid.Uint32().Draw(t, l)
	}
	for _, l := range []string{"1.0", "2.0", "7.0", "7.1", "7.2", "d.0", "80000000.0", "80000001.0"} {
		c.Leaves[l] = [4]uint32{reg(l + "a"), reg(l + "b"), reg(l + "c"), reg(l + "d")}
	}
	c.Leaves["0.0"] = [4]uint32{c.Max, reg("v1"), reg("v2"), reg("v3")}
	return c
}

func runFake(c fakeCase, x *Ctx) error {
	cmd := exec.Command(BinFor("fakecpu"), "child", "cpuflags")
	cmd.Env = append(os.Environ(), "VERIF_CPUID="+c.table())
	b, err := cmd.Output()
	if err != nil {
		return HarnessError{"child: " + err.Error()}
	}
	var o cpuOut
	if err := json.Unmarshal(b, &o); err != nil {
		return HarnessError{err.Error()}
	}
	var w hwcpu.F
	if c.Max >= 1 {
		w.AES = c.Leaves["1.0"][2]>>25&1 == 1
	}
	if c.Max >= 7 {
		e := c.Leaves["7.0"][1]
		w.BMI2, w.ADX, w.RDSEED = e>>8&1 == 1, e>>19&1 == 1, e>>18&1 == 1
		x.NT()
	}
	got := o.Lib
	if c.Max < 7 && !got.AES {
		w.AES = false // giving up on old CPUs is fine
	}
	if got != w {
		return Errf("CPUID says %+v, the library detected %+v (leaves %s)", w, got, c.table())
	}
	x.Label("max leaf>=7: %v", c.Max >= 7)
	return nil
}

func init() {
	Register(&Prop{ID: "C08", Assumptions: []string{"the harness's own CPUID reading (AES: leaf 1 ECX bit 25; BMI2, RDSEED, ADX: leaf 7 EBX bits 8, 18, 19)"}, Suites: append(isaSuites(),
		Gen(Suite{Name: "simulated-cpus", Config: "fakecpu", Quick: 1500, Thorough: 20000, Rule: "generated CPUID tables with leaf 7 present; start-up code runs in a fresh process with CPUID simulated"}, genFake, runFake),
		Enum(Suite{Name: "every-core", Rule: "start-up on every core of this machine"}, func(tier string, emit func(hwCase)) {
			n := 2
			if tier == "thorough" {
				n = 20
			}
			for i := 0; i < n; i++ {
				for _, c := range getAffinity() {
					emit(hwCase{c, ""})
				}
			}
		}, runHW),
		Enum(Suite{Name: "every-core-noasm", Config: "noasm", Rule: "as every-core, build without assembly"}, func(tier string, emit func(hwCase)) { emit(hwCase{-1, "noasm"}) }, runHW),
	)})
}
