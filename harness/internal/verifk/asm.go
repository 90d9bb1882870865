package verifk

import "github.com/ethereum/go-ethereum/common"

// A few EVM instructions, enough to write the contracts of the harnesses.
const (
	opSTOP, opADD, opSUB, opEQ, opISZERO   = 0x00, 0x01, 0x03, 0x14, 0x15
	opADDRESS, opORIGIN, opCALLER, opVALUE = 0x30, 0x32, 0x33, 0x34
	opCALLDATALOAD, opCALLDATASIZE         = 0x35, 0x36
	opCALLDATACOPY, opCODECOPY             = 0x37, 0x39
	opRETURNDATASIZE, opRETURNDATACOPY     = 0x3d, 0x3e
	opBLOCKHASH, opSELFBALANCE, opPOP      = 0x40, 0x47, 0x50
	opMLOAD, opMSTORE, opSLOAD, opSSTORE   = 0x51, 0x52, 0x54, 0x55
	opJUMP, opJUMPI, opGAS, opJUMPDEST     = 0x56, 0x57, 0x5a, 0x5b
	opTLOAD, opTSTORE, opDUP1, opSWAP1     = 0x5c, 0x5d, 0x80, 0x90
	opLOG0, opCREATE, opCALL, opCALLCODE   = 0xa0, 0xf0, 0xf1, 0xf2
	opRETURN, opDELEGATECALL, opSTATICCALL = 0xf3, 0xf4, 0xfa
	opREVERT, opINVALID, opSELFDESTRUCT    = 0xfd, 0xfe, 0xff
)

// asm builds bytecode: an int is an opcode, p pushes, []byte is literal code.
func asm(parts ...any) []byte {
	var r []byte
	for _, x := range parts {
		switch v := x.(type) {
		case int:
			r = append(r, byte(v))
		case []byte:
			r = append(r, v...)
		default:
			panic("asm")
		}
	}
	return r
}

// push is the shortest PUSH of a small number.
func push(n int) []byte {
	if n < 256 {
		return []byte{0x60, byte(n)}
	}
	return []byte{0x61, byte(n >> 8), byte(n)}
}

func pushAddr(a common.Address) []byte { return append([]byte{0x73}, a.Bytes()...) }
func pushWord(h common.Hash) []byte    { return append([]byte{0x7f}, h.Bytes()...) }

// calldata word n
func arg(n int) []byte { return asm(push(32*n), opCALLDATALOAD) }

// initOf is init code returning the given runtime code.
func initOf(code []byte) []byte {
	const hdr = 12 // length of the prologue
	return asm(push(len(code)), push(hdr), push(0), opCODECOPY, push(len(code)), push(0), opRETURN, code)
}

// ifThen runs body when the word on top of the stack is not zero.
func ifThen(at int, cond, body []byte) []byte {
	// cond ISZERO PUSH2 end JUMPI body JUMPDEST
	end := at + len(cond) + 1 + 3 + 1 + len(body)
	return asm(cond, opISZERO, []byte{0x61, byte(end >> 8), byte(end)}, opJUMPI, body, opJUMPDEST)
}

var (
	codeStop   = []byte{opSTOP}
	codeRevert = asm(push(0), push(0), opREVERT)
)

// ifNot reverts when the word on the stack is zero, and stops otherwise.
func ifNot() []byte {
	// PC-relative: PC(58) is not used elsewhere; the code ends with JUMPDEST STOP
	// <flag> PC PUSH1 d ADD JUMPI PUSH0 PUSH0 REVERT JUMPDEST
	return []byte{0x58, 0x60, 10, 0x01, 0x57, 0x60, 0, 0x60, 0, 0xfd, 0x5b, 0x00}
}
