#include "textflag.h"

// what the handler works with; see step.go
#define BASE 0
#define SIZE 8
#define TAB 16
#define HASH 24
#define N 32
#define MASK 40
#define MARKS 48
#define NMARKS 56
#define CAPMARKS 64
#define FIRST 72
#define REC 80
#define NREC 88
#define CAPREC 96

// handler of SIGTRAP, called by the kernel after every instruction. DX is the
// ucontext_t. All registers are restored from it afterwards.
TEXT handler<>(SB), NOSPLIT|NOFRAME, $0
	MOVQ 168(DX), AX           // rip
	LEAQ ·state(SB), CX
	MOVQ AX, R8
	SUBQ BASE(CX), R8
	CMPQ R8, SIZE(CX)
	JAE  done
	MOVQ TAB(CX), R9
	CMPB (R9)(R8*1), $0
	JEQ  done
	MOVQ HASH(CX), R10
	XORQ R8, R10
	MOVQ $0x9E3779B97F4A7C15, R11
	IMULQ R11, R10
	RORQ $29, R10
	MOVQ R10, HASH(CX)
	MOVQ N(CX), R12
	CMPQ R12, FIRST(CX)
	JLT  norec
	MOVQ NREC(CX), R13
	CMPQ R13, CAPREC(CX)
	JGE  norec
	MOVQ REC(CX), R14
	MOVQ AX, (R14)(R13*8)
	INCQ NREC(CX)
norec:
	INCQ R12
	MOVQ R12, N(CX)
	TESTQ R12, MASK(CX)
	JNE  done
	MOVQ NMARKS(CX), R13
	CMPQ R13, CAPMARKS(CX)
	JGE  done
	MOVQ MARKS(CX), R14
	MOVQ R10, (R14)(R13*8)
	INCQ NMARKS(CX)
done:
	RET

TEXT restorer<>(SB), NOSPLIT|NOFRAME, $0
	MOVQ $15, AX // rt_sigreturn
	SYSCALL
	INT  $3

// func addrs() (handler, restorer uintptr)
TEXT ·addrs(SB), NOSPLIT, $0-16
	LEAQ handler<>(SB), AX
	MOVQ AX, ret+0(FP)
	LEAQ restorer<>(SB), AX
	MOVQ AX, ret1+8(FP)
	RET

// func on()
TEXT ·on(SB), NOSPLIT|NOFRAME, $0
	PUSHFQ
	ORQ  $0x100, 0(SP)
	POPFQ
	RET

// func off()
TEXT ·off(SB), NOSPLIT|NOFRAME, $0
	PUSHFQ
	ANDQ $~0x100, 0(SP)
	POPFQ
	RET
