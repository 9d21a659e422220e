#include "textflag.h"

// func schedAddr() uintptr
TEXT ·schedAddr(SB), NOSPLIT, $0-8
	MOVQ $runtime·sched(SB), AX
	MOVQ AX, ret+0(FP)
	RET
