package verifk

import (
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"

	rt "github.com/initia-labs/minievm/internal/verifrt"
)

// ZV_ValueTransfer: native value moves with EVM calls exactly as the EVM says.
// Alice calls Carol with a value; Carol passes a second value on to Dave and
// may revert afterwards.
func ZV_ValueTransfer() {
	e := NewInit()
	from := Alice
	first := Carol
	if rt.Choice("self", 2) == 1 {
		first = Alice
	}
	have := new(big.Int).SetUint64(rt.U64("have"))
	prior := big.NewInt(11)
	e.Mint(from, FeeDenom, have)
	val := new(big.Int).SetUint64(rt.U64("value"))
	if first == from {
		_, _, err := e.K.EVMCall(e.Ctx, from, from, nil, uint256.MustFromBig(val), nil)
		rt.Assert((err == nil) == (val.Cmp(have) <= 0), "a transfer succeeds exactly when the balance covers it")
		rt.Assert(BigEq(e.Bal(from, FeeDenom), have), "a transfer to oneself changes nothing")
		rt.Reach("self")
		return
	}
	e.Mint(first, FeeDenom, prior)
	e.Mint(Bob, FeeDenom, big.NewInt(1000))
	supply := e.Supply(FeeDenom)

	innerRevert := rt.Choice("inner revert", 2) == 1
	outerRevert := rt.Choice("outer revert", 2) == 1
	inner := codeStop
	if innerRevert {
		inner = codeRevert
	}
	e.Deploy(Dave, inner)
	code := asm(push(0), push(0), push(0), push(0), arg(0), pushAddr(Dave), opGAS, opCALL,
		push(0), opSSTORE, opSELFBALANCE, push(1), opSSTORE, opVALUE, push(2), opSSTORE)
	if outerRevert {
		code = asm(code, codeRevert)
	}
	e.Deploy(first, code)
	val2 := new(big.Int).SetUint64(rt.U64("value2"))

	_, _, err := e.K.EVMCall(e.Ctx, from, first, Word(val2).Bytes(), uint256.MustFromBig(val), nil)

	covered := val.Cmp(have) <= 0
	rt.Assert((err == nil) == (covered && !outerRevert), "the call succeeds exactly when the balance covers it and the callee does not revert")
	wantFrom, wantFirst, wantDave := have, prior, big.NewInt(0)
	if err == nil {
		wantFrom = new(big.Int).Sub(have, val)
		wantFirst = new(big.Int).Add(prior, val)
		ok := val2.Cmp(wantFirst) <= 0 && !innerRevert
		if ok {
			wantFirst = new(big.Int).Sub(wantFirst, val2)
			wantDave = val2
			rt.Reach("inner transfer")
		} else {
			rt.Reach("inner refused")
		}
		_, _, db := e.EVM(Bob)
		flag := common.Hash{}
		if ok {
			flag[31] = 1
		}
		rt.Assert(db.GetState(first, common.Hash{}) == flag, "the contract sees whether its transfer succeeded")
		rt.Assert(db.GetState(first, common.BytesToHash([]byte{1})) == Word(wantFirst), "the contract sees its own balance")
		rt.Assert(db.GetState(first, common.BytesToHash([]byte{2})) == Word(val), "the contract sees the value")
		rt.Assert(db.GetBalance(first).ToBig().Cmp(wantFirst) == 0, "balance seen by the EVM")
	} else {
		rt.Reach("refused")
	}
	rt.Assert(BigEq(e.Bal(from, FeeDenom), wantFrom), "sender balance")
	rt.Assert(BigEq(e.Bal(first, FeeDenom), wantFirst), "receiver balance")
	rt.Assert(BigEq(e.Bal(Dave, FeeDenom), wantDave), "second receiver balance")
	rt.Assert(BigEq(e.Bal(Bob, FeeDenom), big.NewInt(1000)), "bystander balance")
	rt.Assert(BigEq(e.Supply(FeeDenom), supply), "supply")
}

// ZV_ValueCreate: value given to a contract creation.
func ZV_ValueCreate() {
	e := NewInit()
	from := Alice
	have := new(big.Int).SetUint64(rt.U64("have"))
	e.Mint(from, FeeDenom, have)
	e.Mint(Bob, FeeDenom, big.NewInt(1000))
	val := new(big.Int).SetUint64(rt.U64("value"))
	supply := e.Supply(FeeDenom)
	revert := rt.Choice("revert", 2) == 1
	init := initOf(codeStop)
	if revert {
		init = codeRevert
	}
	two := rt.Choice("create2", 2) == 1
	var err error
	var at common.Address
	v := uint256.MustFromBig(val)
	if two {
		_, at, _, err = e.K.EVMCreate2(e.Ctx, from, init, v, 9, nil)
	} else {
		_, at, _, err = e.K.EVMCreate(e.Ctx, from, init, v, nil)
	}
	rt.Assert((err == nil) == (val.Cmp(have) <= 0 && !revert), "the creation succeeds exactly when the balance covers it and the constructor does not revert")
	want := have
	if err == nil {
		rt.Reach("created")
		target := crypto.CreateAddress(from, 0)
		if two {
			s := uint256.NewInt(9).Bytes32()
			target = crypto.CreateAddress2(from, s, crypto.Keccak256(init))
		}
		rt.Assert(at == target, "address of the contract")
		want = new(big.Int).Sub(have, val)
		rt.Assert(BigEq(e.Bal(at, FeeDenom), val), "balance of the contract")
	} else {
		rt.Reach("refused")
	}
	rt.Assert(BigEq(e.Bal(from, FeeDenom), want), "sender balance")
	rt.Assert(BigEq(e.Bal(Bob, FeeDenom), big.NewInt(1000)), "bystander balance")
	rt.Assert(BigEq(e.Supply(FeeDenom), supply), "supply")
}
