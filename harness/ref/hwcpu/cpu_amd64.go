// Package hwcpu asks the processor what it supports.
package hwcpu

func CPUID(eaxArg, ecxArg uint32) (eax, ebx, ecx, edx uint32)

func Flags() (f F) {
	f.Known = true
	max, _, _, _ := CPUID(0, 0)
	if max >= 1 {
		_, _, c, _ := CPUID(1, 0)
		f.AES = c&(1<<25) != 0
	}
	if max >= 7 {
		_, b, _, _ := CPUID(7, 0)
		f.BMI2 = b&(1<<8) != 0
		f.RDSEED = b&(1<<18) != 0
		f.ADX = b&(1<<19) != 0
	}
	return
}
