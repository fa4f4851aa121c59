#include "textflag.h"

// func clobber(v uint64)
TEXT ·clobber(SB), 0, $1024-8
	MOVD v+0(FP), R0
	MOVD $1016, R1
	MOVD RSP, R2
	ADD R2, R1, R1
	ADD $8, R2, R2
loop:
	MOVD R0, (R2)
	ADD $8, R2, R2
	CMP R1, R2
	BLO loop
	MOVD R0, R1
	MOVD R0, R2
	MOVD R0, R3
	MOVD R0, R4
	MOVD R0, R5
	MOVD R0, R6
	MOVD R0, R7
	MOVD R0, R8
	MOVD R0, R9
	MOVD R0, R10
	MOVD R0, R11
	MOVD R0, R12
	MOVD R0, R13
	MOVD R0, R14
	MOVD R0, R15
	MOVD R0, R16
	MOVD R0, R17
	MOVD R0, R19
	MOVD R0, R20
	MOVD R0, R21
	MOVD R0, R22
	MOVD R0, R23
	MOVD R0, R24
	MOVD R0, R25
	MOVD R0, R26
	VDUP R0, V0.D2
	VDUP R0, V1.D2
	VDUP R0, V2.D2
	VDUP R0, V3.D2
	VDUP R0, V4.D2
	VDUP R0, V5.D2
	VDUP R0, V6.D2
	VDUP R0, V7.D2
	VDUP R0, V8.D2
	VDUP R0, V9.D2
	VDUP R0, V10.D2
	VDUP R0, V11.D2
	VDUP R0, V12.D2
	VDUP R0, V13.D2
	VDUP R0, V14.D2
	VDUP R0, V15.D2
	VDUP R0, V16.D2
	VDUP R0, V17.D2
	VDUP R0, V18.D2
	VDUP R0, V19.D2
	VDUP R0, V20.D2
	VDUP R0, V21.D2
	VDUP R0, V22.D2
	VDUP R0, V23.D2
	VDUP R0, V24.D2
	VDUP R0, V25.D2
	VDUP R0, V26.D2
	VDUP R0, V27.D2
	VDUP R0, V28.D2
	VDUP R0, V29.D2
	VDUP R0, V30.D2
	VDUP R0, V31.D2
	RET
