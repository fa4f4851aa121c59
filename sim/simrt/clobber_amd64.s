#include "textflag.h"

// func clobber(v uint64)
TEXT ·clobber(SB), 0, $1024-8
	MOVQ v+0(FP), AX
	MOVQ $1024, CX
loop:
	SUBQ $8, CX
	MOVQ AX, (SP)(CX*1)
	CMPQ CX, $0
	JNE loop
	MOVQ AX, BX
	MOVQ AX, CX
	MOVQ AX, DX
	MOVQ AX, SI
	MOVQ AX, DI
	MOVQ AX, R8
	MOVQ AX, R9
	MOVQ AX, R10
	MOVQ AX, R11
	MOVQ AX, R12
	MOVQ AX, R13
	MOVQ AX, X0
	PUNPCKLQDQ X0, X0
	MOVQ AX, X1
	PUNPCKLQDQ X1, X1
	MOVQ AX, X2
	PUNPCKLQDQ X2, X2
	MOVQ AX, X3
	PUNPCKLQDQ X3, X3
	MOVQ AX, X4
	PUNPCKLQDQ X4, X4
	MOVQ AX, X5
	PUNPCKLQDQ X5, X5
	MOVQ AX, X6
	PUNPCKLQDQ X6, X6
	MOVQ AX, X7
	PUNPCKLQDQ X7, X7
	MOVQ AX, X8
	PUNPCKLQDQ X8, X8
	MOVQ AX, X9
	PUNPCKLQDQ X9, X9
	MOVQ AX, X10
	PUNPCKLQDQ X10, X10
	MOVQ AX, X11
	PUNPCKLQDQ X11, X11
	MOVQ AX, X12
	PUNPCKLQDQ X12, X12
	MOVQ AX, X13
	PUNPCKLQDQ X13, X13
	MOVQ AX, X14
	PUNPCKLQDQ X14, X14
	RET
