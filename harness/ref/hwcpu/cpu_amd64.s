#include "textflag.h"

// func CPUID(eaxArg, ecxArg uint32) (eax, ebx, ecx, edx uint32)
TEXT ·CPUID(SB), NOSPLIT, $0-24
	MOVL eaxArg+0(FP), AX
	MOVL ecxArg+4(FP), CX
	CPUID
	MOVL AX, eax+8(FP)
	MOVL BX, ebx+12(FP)
	MOVL CX, ecx+16(FP)
	MOVL DX, edx+20(FP)
	RET
