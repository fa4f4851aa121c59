#include "textflag.h"
#include "funcdata.h"

// asmYield is called before every instruction of instrumented assembly. It
// changes no register and no flag.
TEXT ·asmYield(SB), NOSPLIT|NOFRAME, $0-0
	PUSHFQ
	CMPB ·On(SB), $0
	JEQ  out
	CMPB ·HasGo(SB), $0 // the stack of a goroutine of the library may move
	JNE  out
	DECQ ·Budget(SB)
	JGT  out
	CALL ·asmSlow1(SB)
out:
	POPFQ
	RET

TEXT ·asmSlow1(SB), NOSPLIT, $136-16
	NO_LOCAL_POINTERS
	MOVQ AX, 16(SP)
	MOVQ BX, 24(SP)
	MOVQ CX, 32(SP)
	MOVQ DX, 40(SP)
	MOVQ SI, 48(SP)
	MOVQ DI, 56(SP)
	MOVQ R8, 64(SP)
	MOVQ R9, 72(SP)
	MOVQ R10, 80(SP)
	MOVQ R11, 88(SP)
	MOVQ R12, 96(SP)
	MOVQ R13, 104(SP)
	MOVQ R14, 112(SP)
	MOVQ R15, 120(SP)
	// The next prologue may let the runtime in, and that does not keep vector
	// registers. Only the task that holds the token gets here.
	LEAQ ·vecs(SB), AX
	VMOVDQU Y0, 0(AX)
	VMOVDQU Y1, 32(AX)
	VMOVDQU Y2, 64(AX)
	VMOVDQU Y3, 96(AX)
	VMOVDQU Y4, 128(AX)
	VMOVDQU Y5, 160(AX)
	VMOVDQU Y6, 192(AX)
	VMOVDQU Y7, 224(AX)
	VMOVDQU Y8, 256(AX)
	VMOVDQU Y9, 288(AX)
	VMOVDQU Y10, 320(AX)
	VMOVDQU Y11, 352(AX)
	VMOVDQU Y12, 384(AX)
	VMOVDQU Y13, 416(AX)
	VMOVDQU Y14, 448(AX)
	VMOVDQU Y15, 480(AX)
	VZEROUPPER
	// where the yield was
	MOVQ site+8(FP), AX
	LEAQ ·asmYield(SB), BX
	SUBQ BX, AX
	MOVQ AX, 0(SP)
	CALL ·asmSlow2(SB)
	MOVQ 16(SP), AX
	MOVQ 24(SP), BX
	MOVQ 32(SP), CX
	MOVQ 40(SP), DX
	MOVQ 48(SP), SI
	MOVQ 56(SP), DI
	MOVQ 64(SP), R8
	MOVQ 72(SP), R9
	MOVQ 80(SP), R10
	MOVQ 88(SP), R11
	MOVQ 96(SP), R12
	MOVQ 104(SP), R13
	MOVQ 112(SP), R14
	MOVQ 120(SP), R15
	RET

TEXT ·asmSlow2(SB), 0, $528-8
	NO_LOCAL_POINTERS
	LEAQ ·vecs(SB), AX
	VMOVDQU 0(AX), Y0
	VMOVDQU Y0, 16(SP)
	VMOVDQU 32(AX), Y0
	VMOVDQU Y0, 48(SP)
	VMOVDQU 64(AX), Y0
	VMOVDQU Y0, 80(SP)
	VMOVDQU 96(AX), Y0
	VMOVDQU Y0, 112(SP)
	VMOVDQU 128(AX), Y0
	VMOVDQU Y0, 144(SP)
	VMOVDQU 160(AX), Y0
	VMOVDQU Y0, 176(SP)
	VMOVDQU 192(AX), Y0
	VMOVDQU Y0, 208(SP)
	VMOVDQU 224(AX), Y0
	VMOVDQU Y0, 240(SP)
	VMOVDQU 256(AX), Y0
	VMOVDQU Y0, 272(SP)
	VMOVDQU 288(AX), Y0
	VMOVDQU Y0, 304(SP)
	VMOVDQU 320(AX), Y0
	VMOVDQU Y0, 336(SP)
	VMOVDQU 352(AX), Y0
	VMOVDQU Y0, 368(SP)
	VMOVDQU 384(AX), Y0
	VMOVDQU Y0, 400(SP)
	VMOVDQU 416(AX), Y0
	VMOVDQU Y0, 432(SP)
	VMOVDQU 448(AX), Y0
	VMOVDQU Y0, 464(SP)
	VMOVDQU 480(AX), Y0
	VMOVDQU Y0, 496(SP)
	VZEROUPPER
	MOVQ site+0(FP), AX
	MOVQ AX, 0(SP)
	CALL ·asmSlow(SB)
	VMOVDQU 16(SP), Y0
	VMOVDQU 48(SP), Y1
	VMOVDQU 80(SP), Y2
	VMOVDQU 112(SP), Y3
	VMOVDQU 144(SP), Y4
	VMOVDQU 176(SP), Y5
	VMOVDQU 208(SP), Y6
	VMOVDQU 240(SP), Y7
	VMOVDQU 272(SP), Y8
	VMOVDQU 304(SP), Y9
	VMOVDQU 336(SP), Y10
	VMOVDQU 368(SP), Y11
	VMOVDQU 400(SP), Y12
	VMOVDQU 432(SP), Y13
	VMOVDQU 464(SP), Y14
	VMOVDQU 496(SP), Y15
	RET

// func G() uintptr
TEXT ·G(SB), NOSPLIT, $0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET
