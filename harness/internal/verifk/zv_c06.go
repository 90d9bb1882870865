package verifk

import (
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	rt "github.com/initia-labs/minievm/internal/verifrt"
)

// ZV_PrecompileFrames: what a call frame does through the precompiles belongs to the frame.
func ZV_PrecompileFrames() {
	e := NewInit()
	lateKind := rt.Choice("late message", 5)
	late := lateKind > 0
	bad := []string{"", "", "unsupported", "invalid", "failing"}[lateKind]
	ran := e.Notes(map[string]*Note{
		"inner": {Tag: "inner", From: [][]byte{Dave.Bytes()}},
		"outer": {Tag: "outer", From: [][]byte{Carol.Bytes()}},
		"late":  {Tag: "late", From: [][]byte{Carol.Bytes()}, Bad: bad},
	})
	fresh := Addr("account")
	for _, a := range []common.Address{Alice, Bob, Carol, Dave, crypto.CreateAddress(Carol, 1)} {
		rt.Assume(fresh != a)
	}
	exists := rt.Bool("exists") // whether the account is there already
	if exists {
		e.AK.SetAccount(e.Ctx, e.AK.NewAccountWithAddress(e.Ctx, fresh.Bytes()))
	}
	innerRevert := rt.Choice("inner revert", 2) == 1
	outerRevert := rt.Choice("outer revert", 2) == 1
	what := rt.Choice("inner action", 4)
	create := rt.Choice("create", 2) == 1

	var inner []byte
	reg, msg := what&1 == 1, what&2 == 2
	if reg {
		inner = asm(inner, callCode(opCALL, registryAt, registryIn("register_erc20")), opPOP,
			callCode(opCALL, registryAt, registryIn("register_erc20_store", fresh)), opPOP)
	}
	if msg {
		inner = asm(inner, callCode(opCALL, cosmosAt, cosmosIn("execute_cosmos", "inner")), opPOP)
	}
	if innerRevert {
		inner = asm(inner, codeRevert)
	}
	e.Deploy(Dave, inner)

	outer := asm(callCode(opCALL, cosmosAt, cosmosIn("execute_cosmos", "outer")), opPOP)
	if create {
		// a new contract, whose account number comes from the same sequence
		outer = asm(outer, push(0), push(0), push(0), opCREATE, opPOP)
	}
	outer = asm(outer, callCode(opCALL, Dave, nil), opPOP)
	if late {
		outer = asm(outer, callCode(opCALL, cosmosAt, cosmosIn("execute_cosmos", "late")), opPOP)
	}
	if outerRevert {
		outer = asm(outer, codeRevert)
	}
	e.Deploy(Carol, outer)

	*ran = nil
	_, _, err := e.K.EVMCall(e.Ctx, Alice, Carol, nil, nil, nil)
	rt.Assert((err == nil) == (!outerRevert && bad == ""), "the call fails exactly when the outer contract reverts or a message cannot be executed")
	if err != nil && !outerRevert {
		rt.Reach("bad message")
		return
	}
	kept := !innerRevert && !outerRevert
	var want []string
	if !outerRevert {
		want = append(want, "outer")
		if msg && kept {
			want = append(want, "inner")
		}
		if late {
			want = append(want, "late")
		}
	}
	ok := len(want) == len(*ran)
	for i := 0; ok && i < len(want); i++ {
		ok = want[i] == (*ran)[i]
	}
	rt.Assert(ok, "exactly the messages of frames that were kept are executed, in order")

	is, err := e.K.ERC20s.Has(e.Ctx, Dave.Bytes())
	rt.Assert(err == nil && is == (reg && kept), "a registration is kept exactly when its frame is kept")
	st, err := e.K.ERC20StoresKeeper().IsStoreRegistered(e.Ctx, fresh.Bytes(), Dave)
	rt.Assert(err == nil && st == (reg && kept), "a store registration is kept exactly when its frame is kept")
	acc := e.AK.GetAccount(e.Ctx, fresh.Bytes())
	rt.Assert((acc != nil) == (exists || reg && kept), "an account made by the registration is kept exactly when its frame is kept")
	nums := map[uint64]bool{}
	n := 0
	for _, a := range e.AK.All(e.Ctx) {
		nums[a.GetAccountNumber()] = true
		n++
	}
	rt.Assert(len(nums) == n, "account numbers are unique")
	if kept {
		rt.Reach("kept")
	} else {
		rt.Reach("reverted")
	}
}
