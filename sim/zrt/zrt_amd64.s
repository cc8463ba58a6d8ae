#include "textflag.h"

// func FrameBase() uintptr
TEXT ·FrameBase(SB),NOSPLIT|NOFRAME,$0-8
	MOVQ BP, ret+0(FP)
	RET

// func CurG() uintptr
TEXT ·CurG(SB),NOSPLIT|NOFRAME,$0-8
	MOVQ R14, ret+0(FP)
	RET
