#include "textflag.h"
#include "funcdata.h"

// asmYield is called before every instruction of instrumented assembly. It
// changes no register and no flag.
TEXT ·asmYield(SB), NOSPLIT, $64-0
	NO_LOCAL_POINTERS
	MOVD R0, 24(RSP)
	MOVD R1, 32(RSP)
	MRS  NZCV, R0
	MOVD R0, 40(RSP)
	MOVD $·On(SB), R0
	MOVBU (R0), R0
	CBZ  R0, out
	MOVD $·HasGo(SB), R0 // the stack of a goroutine of the library may move
	MOVBU (R0), R0
	CBNZ R0, out
	MOVD $·Budget(SB), R1
	MOVD (R1), R0
	SUB  $1, R0, R0
	MOVD R0, (R1)
	CMP  $0, R0
	BGT  out
	MOVD 0(RSP), R0 // where the yield was
	MOVD $·asmYield(SB), R1
	SUB  R1, R0, R0
	MOVD R0, 16(RSP)
	BL   ·asmSlow1(SB)
out:
	MOVD 40(RSP), R0
	MSR  R0, NZCV
	MOVD 24(RSP), R0
	MOVD 32(RSP), R1
	RET

TEXT ·asmSlow1(SB), NOSPLIT, $232-16
	NO_LOCAL_POINTERS
	MOVD site+8(FP), R0
	MOVD R0, 8(RSP)
	MOVD R2, 16(RSP)
	MOVD R3, 24(RSP)
	MOVD R4, 32(RSP)
	MOVD R5, 40(RSP)
	MOVD R6, 48(RSP)
	MOVD R7, 56(RSP)
	MOVD R8, 64(RSP)
	MOVD R9, 72(RSP)
	MOVD R10, 80(RSP)
	MOVD R11, 88(RSP)
	MOVD R12, 96(RSP)
	MOVD R13, 104(RSP)
	MOVD R14, 112(RSP)
	MOVD R15, 120(RSP)
	MOVD R16, 128(RSP)
	MOVD R17, 136(RSP)
	MOVD R19, 144(RSP)
	MOVD R20, 152(RSP)
	MOVD R21, 160(RSP)
	MOVD R22, 168(RSP)
	MOVD R23, 176(RSP)
	MOVD R24, 184(RSP)
	MOVD R25, 192(RSP)
	MOVD R26, 200(RSP)
	MOVD R27, 208(RSP)
	MOVD $·vecs(SB), R0
	VST1.P [V0.B16, V1.B16, V2.B16, V3.B16], 64(R0)
	VST1.P [V4.B16, V5.B16, V6.B16, V7.B16], 64(R0)
	VST1.P [V8.B16, V9.B16, V10.B16, V11.B16], 64(R0)
	VST1.P [V12.B16, V13.B16, V14.B16, V15.B16], 64(R0)
	VST1.P [V16.B16, V17.B16, V18.B16, V19.B16], 64(R0)
	VST1.P [V20.B16, V21.B16, V22.B16, V23.B16], 64(R0)
	VST1.P [V24.B16, V25.B16, V26.B16, V27.B16], 64(R0)
	VST1.P [V28.B16, V29.B16, V30.B16, V31.B16], 64(R0)
	BL   ·asmSlow2(SB)
	MOVD 16(RSP), R2
	MOVD 24(RSP), R3
	MOVD 32(RSP), R4
	MOVD 40(RSP), R5
	MOVD 48(RSP), R6
	MOVD 56(RSP), R7
	MOVD 64(RSP), R8
	MOVD 72(RSP), R9
	MOVD 80(RSP), R10
	MOVD 88(RSP), R11
	MOVD 96(RSP), R12
	MOVD 104(RSP), R13
	MOVD 112(RSP), R14
	MOVD 120(RSP), R15
	MOVD 128(RSP), R16
	MOVD 136(RSP), R17
	MOVD 144(RSP), R19
	MOVD 152(RSP), R20
	MOVD 160(RSP), R21
	MOVD 168(RSP), R22
	MOVD 176(RSP), R23
	MOVD 184(RSP), R24
	MOVD 192(RSP), R25
	MOVD 200(RSP), R26
	MOVD 208(RSP), R27
	RET

TEXT ·asmSlow2(SB), 0, $544-8
	NO_LOCAL_POINTERS
	ADD $32, RSP, R0
	MOVD $·vecs(SB), R1
	VLD1.P 64(R1), [V0.B16, V1.B16, V2.B16, V3.B16]
	VST1.P [V0.B16, V1.B16, V2.B16, V3.B16], 64(R0)
	VLD1.P 64(R1), [V0.B16, V1.B16, V2.B16, V3.B16]
	VST1.P [V0.B16, V1.B16, V2.B16, V3.B16], 64(R0)
	VLD1.P 64(R1), [V0.B16, V1.B16, V2.B16, V3.B16]
	VST1.P [V0.B16, V1.B16, V2.B16, V3.B16], 64(R0)
	VLD1.P 64(R1), [V0.B16, V1.B16, V2.B16, V3.B16]
	VST1.P [V0.B16, V1.B16, V2.B16, V3.B16], 64(R0)
	VLD1.P 64(R1), [V0.B16, V1.B16, V2.B16, V3.B16]
	VST1.P [V0.B16, V1.B16, V2.B16, V3.B16], 64(R0)
	VLD1.P 64(R1), [V0.B16, V1.B16, V2.B16, V3.B16]
	VST1.P [V0.B16, V1.B16, V2.B16, V3.B16], 64(R0)
	VLD1.P 64(R1), [V0.B16, V1.B16, V2.B16, V3.B16]
	VST1.P [V0.B16, V1.B16, V2.B16, V3.B16], 64(R0)
	VLD1.P 64(R1), [V0.B16, V1.B16, V2.B16, V3.B16]
	VST1.P [V0.B16, V1.B16, V2.B16, V3.B16], 64(R0)
	MOVD site+0(FP), R0
	MOVD R0, 8(RSP)
	BL   ·asmSlow(SB)
	ADD $32, RSP, R0
	VLD1.P 64(R0), [V0.B16, V1.B16, V2.B16, V3.B16]
	VLD1.P 64(R0), [V4.B16, V5.B16, V6.B16, V7.B16]
	VLD1.P 64(R0), [V8.B16, V9.B16, V10.B16, V11.B16]
	VLD1.P 64(R0), [V12.B16, V13.B16, V14.B16, V15.B16]
	VLD1.P 64(R0), [V16.B16, V17.B16, V18.B16, V19.B16]
	VLD1.P 64(R0), [V20.B16, V21.B16, V22.B16, V23.B16]
	VLD1.P 64(R0), [V24.B16, V25.B16, V26.B16, V27.B16]
	VLD1.P 64(R0), [V28.B16, V29.B16, V30.B16, V31.B16]
	RET

// func G() uintptr
TEXT ·G(SB), NOSPLIT, $0-8
	MOVD g, R0
	MOVD R0, ret+0(FP)
	RET
