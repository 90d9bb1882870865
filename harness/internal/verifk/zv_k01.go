package verifk

import (
	"bytes"

	"cosmossdk.io/math"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/keeper"
	"github.com/initia-labs/minievm/x/evm/types"
)

// ZV_DeployAuth: with a list of allowed publishers only these deploy with MsgCreate and MsgCreate2.
func ZV_DeployAuth() {
	e := NewInit()
	srv := keeper.NewMsgServerImpl(e.K)
	n := rt.Choice("publishers", 4)
	var list []sdk.AccAddress
	var names []string
	for i := 0; i < n; i++ {
		a := sdk.AccAddress(Addr("publisher").Bytes())
		if i == 2 {
			a = append(sdk.AccAddress(rt.Bytes("long publisher", 12)), Addr("publisher").Bytes()...)
		}
		list, names = append(list, a), append(names, a.String())
	}
	sender := sdk.AccAddress(Alice.Bytes())
	if rt.Choice("long sender", 2) == 1 {
		sender = append(sdk.AccAddress{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, sender...)
	}
	evm := common.BytesToAddress(sender)
	e.EditParams(func(p *types.Params) { p.AllowedPublishers = names })
	allowed := n == 0
	for _, a := range list {
		if bytes.Equal(a, sender) {
			allowed = true
		}
	}
	init := initOf(codeStop)
	at := crypto.CreateAddress(evm, 0)
	var got string
	var err error
	if rt.Choice("create2", 2) == 0 {
		var r *types.MsgCreateResponse
		r, err = srv.Create(e.Ctx, &types.MsgCreate{Sender: sender.String(), Code: hexutil.Encode(init), Value: math.ZeroInt()})
		if err == nil {
			got = r.ContractAddr
		}
	} else {
		at = crypto.CreateAddress2(evm, [32]byte{31: 9}, crypto.Keccak256(init))
		var r *types.MsgCreate2Response
		r, err = srv.Create2(e.Ctx, &types.MsgCreate2{Sender: sender.String(), Code: hexutil.Encode(init), Value: math.ZeroInt(), Salt: 9})
		if err == nil {
			got = r.ContractAddr
		}
	}
	rt.Assert((err == nil) == allowed, "only allowed publishers deploy, and they can")
	_, _, db := e.EVM(Bob)
	if err == nil {
		rt.Reach("deployed")
		rt.Assert(got == at.Hex(), "address of the contract")
		rt.Assert(bytes.Equal(db.GetCode(at), codeStop), "the contract is deployed")
	} else {
		rt.Reach("refused")
		rt.Assert(db.GetCodeSize(at) == 0 && !db.Exist(at), "a refused deployment leaves nothing")
	}
}

// ZV_UpdateParams: the parameters change only by the authority and only to valid values.
func ZV_UpdateParams() {
	t := NewTokens()
	e := t.Env
	srv := keeper.NewMsgServerImpl(e.K)
	old, err := e.K.Params.Get(e.Ctx)
	if err != nil {
		panic(err)
	}
	authority := Authority.String()
	right := true
	if rt.Choice("authority", 2) == 1 {
		a := sdk.AccAddress(rt.Bytes("authority", 20))
		authority = a.String()
		right = bytes.Equal(a, Authority)
	}
	denoms := []string{FeeDenom, SecondDenom, t.Denoms[0], "unknown", "evm/5e55555555555555555555555555555555555555", types.DENOM_PREFIX + Carol.Hex()[2:]}
	// a token that the chain cannot mint
	sizeIs4 := asm(push(4), opCALLDATASIZE, opEQ)
	e.Deploy(Carol, asm(ifThen(0, sizeIs4, asm(push(6), push(0), opMSTORE, push(32), push(0), opRETURN)), codeRevert))
	di := rt.Choice("denom", len(denoms))
	half, one := math.LegacyNewDecWithPrec(5, 1), math.LegacyOneDec()
	tick := math.LegacySmallestDec()
	p := types.Params{FeeDenom: denoms[di], GasRefundRatio: half, NumRetainBlockHashes: 256, AllowCustomERC20: rt.Bool("custom")}
	valid := true
	switch rt.Choice("case", 11) {
	case 1:
		p.AllowedPublishers = []string{sdk.AccAddress(Alice.Bytes()).String()}
		p.AllowedCustomERC20s = []string{Carol.Hex(), sdk.AccAddress(Carol.Bytes()).String()}
	case 2:
		p.AllowedPublishers = []string{sdk.AccAddress(Alice.Bytes()).String(), "nonsense"}
		valid = false
	case 3:
		p.AllowedCustomERC20s = []string{Carol.Hex(), "0x1234"}
		valid = false
	case 4:
		p.GasRefundRatio, valid = tick.Neg(), false
	case 5:
		p.GasRefundRatio = math.LegacyZeroDec()
	case 6:
		p.GasRefundRatio = one
	case 7:
		p.GasRefundRatio, valid = one.Add(tick), false
	case 8:
		p.NumRetainBlockHashes = 0
	case 9:
		p.NumRetainBlockHashes, valid = 1, false
	case 10:
		p.NumRetainBlockHashes, valid = 255, false
	}
	usable := di < 3 // the chain can mint and burn it
	alice, supply0, supply1 := e.Bal(Alice, t.Denoms[0]), e.Supply(t.Denoms[0]), e.Supply(SecondDenom)
	_, err = srv.UpdateParams(e.Ctx, &types.MsgUpdateParams{Authority: authority, Params: p})
	rt.Assert((err == nil) == (right && valid && usable), "parameters change exactly when the authority sets valid ones")
	now, err2 := e.K.Params.Get(e.Ctx)
	if err2 != nil {
		panic(err2)
	}
	want := old
	if err == nil {
		rt.Reach("changed")
		want = p
	} else {
		rt.Reach("refused")
	}
	rt.Assert(now.FeeDenom == want.FeeDenom && now.GasRefundRatio.Equal(want.GasRefundRatio) && now.NumRetainBlockHashes == want.NumRetainBlockHashes &&
		now.AllowCustomERC20 == want.AllowCustomERC20 && len(now.AllowedPublishers) == len(want.AllowedPublishers) && len(now.AllowedCustomERC20s) == len(want.AllowedCustomERC20s),
		"parameters after the message")
	rt.Assert(BigEq(alice, e.Bal(Alice, t.Denoms[0])) && BigEq(supply0, e.Supply(t.Denoms[0])) && BigEq(supply1, e.Supply(SecondDenom)) && BigEq(e.Bal(types.StdAddress, want.FeeDenom), common.Big0),
		"balances and supplies do not change")
}

// ZV_ParamsValid: the validity of the numeric parameters, for every value.
func ZV_ParamsValid() {
	p := types.DefaultParams()
	ratio := rt.BigSigned("ratio", 256)
	p.GasRefundRatio = math.LegacyNewDecFromBigIntWithPrec(ratio, 18)
	p.NumRetainBlockHashes = rt.U64("retain")
	valid := ratio.Sign() >= 0 && ratio.Cmp(math.LegacyOneDec().BigInt()) <= 0 && (p.NumRetainBlockHashes == 0 || p.NumRetainBlockHashes >= 256)
	err := p.Validate(AC{})
	rt.Assert((err == nil) == valid, "validity of the refund ratio and the block hash window")
	if err == nil {
		rt.Reach("valid")
	} else {
		rt.Reach("invalid")
	}
}

// ZV_Identity: two different accounts never act as the same EVM address.
func ZV_Identity() {
	e := NewInit()
	srv := keeper.NewMsgServerImpl(e.K)
	// records its caller
	e.Deploy(Dave, asm(opCALLER, push(0), opSSTORE))
	caller := func() common.Address {
		_, _, db := e.EVM(Bob)
		return common.BytesToAddress(db.GetState(Dave, common.Hash{}).Bytes())
	}
	call := func(ctx sdk.Context, a sdk.AccAddress) error {
		_, err := srv.Call(ctx, &types.MsgCall{Sender: a.String(), ContractAddr: Dave.Hex(), Input: "0x", Value: math.ZeroInt()})
		return err
	}
	// messages run on a branch that is dropped when they fail
	do := func(a sdk.AccAddress) (common.Address, bool) {
		ctx, write := e.Ctx.CacheContext()
		if call(ctx, a) != nil {
			return common.Address{}, false
		}
		write()
		return caller(), true
	}
	// being paid and being asked for the balance
	paid := func(a sdk.AccAddress, tail common.Address) bool {
		ctx, _ := e.Ctx.CacheContext()
		k := e.K.ERC20Keeper()
		if k.MintCoins(ctx, a, sdk.Coins{sdk.NewInt64Coin(FeeDenom, 5)}) != nil {
			_, err := k.GetBalance(ctx, a, FeeDenom)
			rt.Assert(err != nil, "an account that cannot be paid has no balance")
			return false
		}
		b, err := k.GetBalance(ctx, tail.Bytes(), FeeDenom)
		rt.Assert(err == nil && b.Int64() == 5, "an account is paid at its EVM address")
		b, err = k.GetBalance(ctx, a, FeeDenom)
		rt.Assert(err == nil && b.Int64() == 5, "an account has the balance of its EVM address")
		return true
	}
	tail := Addr("tail")
	rt.Assume(tail != Alice && tail != Bob && tail != Carol && tail != Dave)
	pays := rt.Choice("payments", 2) == 1
	if pays {
		tail = common.HexToAddress("0x5e70000000000000000000000000000000000007")
	}
	long := func(name string) sdk.AccAddress {
		return append(sdk.AccAddress(rt.Bytes(name, 12)), tail.Bytes()...)
	}
	a := long("a")
	// what occupies the 20-byte address before the first long account uses it
	kind := rt.Choice("occupant", 8)
	seq := rt.U64("sequence")
	rt.Assume(seq < 1<<60)
	usable := true
	switch kind {
	case 1: // never used account
		acc := e.AK.NewAccountWithAddress(e.Ctx, tail.Bytes())
		acc.SetSequence(seq)
		e.AK.SetAccount(e.Ctx, acc)
		usable = seq == 0
	case 2: // contract
		e.Deploy(tail, codeStop)
		usable = false
	case 3: // another long account
		_, ok := do(long("other"))
		rt.Assert(ok, "an account on a free address can act")
	case 4: // an account with a key
		acc := e.AK.NewAccountWithAddress(e.Ctx, tail.Bytes())
		acc.(*authtypes.BaseAccount).PubKey = codectypes.UnsafePackAny(&secp256k1.PubKey{Key: make([]byte, 33)})
		e.AK.SetAccount(e.Ctx, acc)
		usable = false
	case 6: // a module
		e.AK.SetAccount(e.Ctx, &authtypes.ModuleAccount{BaseAccount: authtypes.NewBaseAccountWithAddress(tail.Bytes()), Name: "m"})
		usable = false
	case 7: // a contract whose code has run but has made nothing
		acc := types.NewContractAccountWithAddress(tail.Bytes())
		acc.SetSequence(seq)
		e.AK.SetAccount(e.Ctx, acc)
		usable = false
	case 5: // the 20-byte account itself acts before
		c, ok := do(tail.Bytes())
		rt.Assert(ok && c == tail, "a 20-byte account acts as itself")
		usable = false
	}
	if kind == 3 {
		other := e.AK.GetAccount(e.Ctx, tail.Bytes()).(types.ShorthandAccountI)
		orig, err := other.GetOriginalAddress(AC{})
		rt.Assert(err == nil, "the shorthand account names its owner")
		usable = bytes.Equal(orig, a)
	}
	rt.Assert(!pays || paid(a, tail) == usable, "a long account is paid exactly when its EVM address is free or its own")
	c, ok := do(a)
	rt.Assert(ok == usable, "a long account acts exactly when its EVM address is free or its own")
	if ok {
		rt.Reach("acts")
		rt.Assert(c == tail, "EVM address of a long account")
		c, ok = do(a)
		rt.Assert(ok && c == tail, "it keeps its EVM address")
		// a different one with the same tail
		b := long("b")
		rt.Assert(!pays || paid(b, tail) == bytes.Equal(a, b), "no other account is paid at the same EVM address")
		c, ok = do(b)
		rt.Assert(ok == bytes.Equal(a, b), "no other account gets the same EVM address")
		acc := e.AK.GetAccount(e.Ctx, tail.Bytes()).(types.ShorthandAccountI)
		orig, err := acc.GetOriginalAddress(AC{})
		rt.Assert(err == nil && bytes.Equal(orig, a), "owner of the EVM address")
	} else {
		rt.Reach("refused")
	}
}
