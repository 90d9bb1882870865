package verifk

import (
	"bytes"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/types"
)

// ZV_RegisterToken: who may register a token or a store, and what that stores.
func ZV_RegisterToken() {
	e := NewInit()
	var list []common.Address
	var names []string
	n := rt.Choice("listed", 3)
	for i := 0; i < n; i++ {
		a := Addr("listed token")
		if i == 1 && rt.Choice("carol listed", 2) == 1 {
			a = Carol
		}
		list = append(list, a)
		if rt.Choice("written as", 2) == 0 {
			names = append(names, a.Hex())
		} else {
			names = append(names, sdk.AccAddress(a.Bytes()).String())
		}
	}
	custom := rt.Choice("custom", 2) == 1
	e.EditParams(func(p *types.Params) { p.AllowCustomERC20, p.AllowedCustomERC20s = custom, names })
	factory, err := e.K.GetERC20FactoryAddr(e.Ctx)
	if err != nil {
		panic(err)
	}
	caller := []common.Address{Carol, factory, common.BytesToAddress(rt.Bytes("caller", 20))}[rt.Choice("caller", 3)]
	before := rt.Choice("registered", 2) == 1
	if before {
		if err := e.K.ERC20s.Set(e.Ctx, caller.Bytes()); err != nil {
			panic(err)
		}
	}
	was, err := e.K.ERC20s.Has(e.Ctx, caller.Bytes())
	if err != nil {
		panic(err)
	}
	acc := Addr("account")
	rt.Assume(acc != caller)
	method := rt.Choice("method", 3)
	var in []byte
	switch method {
	case 0:
		in = registryIn("register_erc20")
	case 1:
		in = registryIn("register_erc20_store", acc)
	case 2:
		in = registryIn("register_erc20_from_factory", acc)
	}
	had := e.AK.HasAccount(e.Ctx, acc.Bytes())
	otherBefore, err := e.K.ERC20s.Has(e.Ctx, acc.Bytes())
	if err != nil {
		panic(err)
	}
	_, _, err = e.K.EVMCall(e.Ctx, caller, registryAt, in, nil, nil)
	is, err2 := e.K.ERC20s.Has(e.Ctx, caller.Bytes())
	rt.Assert(err2 == nil, "registered")
	other, err2 := e.K.ERC20s.Has(e.Ctx, acc.Bytes())
	rt.Assert(err2 == nil, "registered")
	st, err2 := e.K.ERC20StoresKeeper().IsStoreRegistered(e.Ctx, acc.Bytes(), caller)
	rt.Assert(err2 == nil, "store")
	switch method {
	case 0:
		allowed := custom && (was || n == 0)
		for _, a := range list {
			allowed = allowed || custom && a == caller
		}
		rt.Assert((err == nil) == allowed, "a token registers itself exactly when the parameters allow it")
		rt.Assert(is == (was || allowed), "a token that registered itself is registered")
		rt.Assert(other == otherBefore && !st, "no other token and no store is registered")
		if allowed {
			rt.Reach("token")
		} else {
			rt.Reach("refused")
		}
	case 1:
		rt.Assert(err == nil, "a store registration does not fail")
		rt.Assert(st == was, "a store is registered exactly for registered tokens")
		rt.Assert(is == was && other == otherBefore, "no token is registered")
		rt.Assert(e.AK.HasAccount(e.Ctx, acc.Bytes()) == (had || was), "an account is made for the store")
		rev, err2 := e.K.ERC20StoresKeeper().IsStoreRegistered(e.Ctx, caller.Bytes(), acc)
		rt.Assert(err2 == nil && !rev, "no other store is registered")
		if st {
			rt.Reach("store")
		}
		ret, err2 := e.K.EVMStaticCall(e.Ctx, caller, registryAt, registryIn("is_erc20_store_registered", acc), nil)
		rt.Assert(err2 == nil && len(ret) == 32 && bytes.Equal(ret[:31], make([]byte, 31)) && (ret[31] == 1) == st && ret[31] <= 1, "whether a store is registered")
	case 2:
		rt.Assert((err == nil) == (caller == factory), "only the factory registers tokens for others")
		rt.Assert(other == (otherBefore || caller == factory), "a token of the factory is registered")
		rt.Assert(is == was && !st, "nothing else is registered")
		if err == nil {
			rt.Reach("factory")
		}
	}
}

// ZV_CustomToken: tokens that users deploy themselves.
func ZV_CustomToken() {
	e := NewInit()
	allowed := rt.Choice("custom", 2) == 1
	e.EditParams(func(p *types.Params) { p.AllowCustomERC20 = allowed })
	// a constructor that registers the new contract
	init := asm(callCode(opCALL, registryAt, registryIn("register_erc20")), opPOP, push(0), push(0), opRETURN)
	viaFactory := rt.Choice("factory", 2) == 1
	var at common.Address
	if viaFactory {
		at = e.CreateToken(Alice, "bar")
	} else {
		var err error
		_, at, _, err = e.K.EVMCreate(e.Ctx, Alice, init, nil, nil)
		rt.Assert(err == nil && at == crypto.CreateAddress(Alice, 0), "the contract is made")
	}
	is, err := e.K.ERC20s.Has(e.Ctx, at.Bytes())
	rt.Assert(err == nil && is == (viaFactory || allowed), "tokens of the factory are always registered, others when custom tokens are allowed")
	has, err := e.K.ERC20Keeper().HasSupply(e.Ctx, types.DENOM_PREFIX+at.Hex()[2:])
	rt.Assert(err == nil && has == is, "registered tokens have a supply")
	rt.Reach("end")
}
