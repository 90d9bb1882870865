package verifk

import (
	"math/big"

	"github.com/ethereum/go-ethereum/common"
)

var (
	Alice = common.HexToAddress("0x5e11111111111111111111111111111111111111")
	Bob   = common.HexToAddress("0x5e22222222222222222222222222222222222222")
	Carol = common.HexToAddress("0x5e33333333333333333333333333333333333333")
	Dave  = common.HexToAddress("0x5e44444444444444444444444444444444444444")
)

// Deploy installs runtime code at an address (a contract of an earlier transaction).
func (e *Env) Deploy(a common.Address, code []byte) {
	_, _, db := e.EVM(Alice)
	db.CreateContract(a)
	db.SetNonce(a, 1)
	db.SetCode(a, code)
	if err := db.Commit(); err != nil {
		panic(err)
	}
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// Word is the 32-byte big-endian form of a non-negative number.
func Word(x *big.Int) (h common.Hash) {
	x.FillBytes(h[:])
	return
}
