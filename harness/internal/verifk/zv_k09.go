package verifk

import (
	"bytes"
	"errors"
	"math/big"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"

	ve "github.com/initia-labs/minievm/internal/verifenv"
	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/keeper"
	"github.com/initia-labs/minievm/x/evm/types"
)

// few returns a word of which the first and the last byte are symbolic.
func few(name string) (h common.Hash) {
	b := rt.Bytes(name, 2)
	h[0], h[15], h[31] = b[0], 0x5e, b[1]
	return
}

// ZV_QueryCall: a call query answers what the same call would do, and does nothing.
func ZV_QueryCall() {
	e := NewInit()
	e.Notes(map[string]*Note{"m": {Tag: "m", From: [][]byte{Dave.Bytes()}}, "bad": {Tag: "bad", From: [][]byte{Dave.Bytes()}}})
	e.Router.Handle = func(ctx sdk.Context, m sdk.Msg) (*sdk.Result, error) {
		if err := ve.Open(ctx, ve.StoreBank).Set([]byte("message"), []byte{1}); err != nil {
			panic(err)
		}
		if m.(*Note).Tag == "bad" {
			return nil, errors.New("failing")
		}
		return &sdk.Result{}, nil
	}
	// writes, logs what it sees, and returns it with the slot 7
	body := asm(arg(0), push(0), opSSTORE,
		opCALLER, push(0), opMSTORE, opVALUE, push(32), opMSTORE, opORIGIN, push(64), opMSTORE, push(7), opSLOAD, push(96), opMSTORE,
		arg(0), push(128), push(0), 0xa1)
	what := rt.Choice("program", 4)
	switch what {
	case 0:
		body = asm(body, push(128), push(0), opRETURN)
	case 1:
		body = asm(body, push(128), push(0), opREVERT)
	case 2:
		body = asm(body, callCode(opCALL, cosmosAt, cosmosIn("execute_cosmos", "m")), opPOP, push(32), push(0), opRETURN)
	case 3:
		body = asm(body, callCode(opCALL, cosmosAt, cosmosIn("execute_cosmos", "bad")), opPOP, push(32), push(0), opRETURN)
	}
	e.Deploy(Dave, asm(push(0x55), push(7), opSSTORE, opSTOP))
	if _, _, err := e.K.EVMCall(e.Ctx, Bob, Dave, nil, nil, nil); err != nil {
		panic(err)
	}
	_, _, db := e.EVM(Alice)
	db.SetCode(Dave, body)
	if err := db.Commit(); err != nil {
		panic(err)
	}
	have := new(big.Int).SetUint64(rt.U64("have"))
	rt.Assume(have.Sign() > 0)
	e.Mint(Alice, FeeDenom, have)
	value := new(big.Int)

	req := &types.QueryCallRequest{}
	caller := Alice
	switch rt.Choice("sender", 3) {
	case 0:
		caller = common.Address{}
	case 1:
		req.Sender = sdk.AccAddress(Alice.Bytes()).String()
	case 2:
		caller = Bob
		req.Sender = sdk.AccAddress(Bob.Bytes()).String()
	}
	if caller == Alice && what < 2 || caller != Alice && what == 0 {
		value.SetUint64(rt.U64("value"))
	}
	req.Value = math.NewIntFromBigInt(value)
	create := what != 2 && what != 3 && rt.Choice("create", 2) == 1
	input := few("input").Bytes()
	if create {
		input = body
		if what == 0 {
			input = initOf(body)
		}
	} else if what == 0 && rt.Choice("bech32", 2) == 1 {
		req.ContractAddr = sdk.AccAddress(Dave.Bytes()).String()
	} else {
		req.ContractAddr = Dave.Hex()
	}
	req.Input = hexutil.Encode(input)

	qctx, _ := e.Ctx.WithGasMeter(storetypes.NewInfiniteGasMeter()).CacheContext()
	res, err := keeper.NewQueryServer(e.K).Call(qctx, req)
	rt.Assert(err == nil && res != nil, "a call query is answered")
	rt.Assert(qctx.MultiStore().(*ve.MS).Written() == 0, "a call query changes nothing")

	// the same as a transaction
	tctx, _ := e.Ctx.WithGasMeter(storetypes.NewInfiniteGasMeter()).CacheContext()
	v := uint256.MustFromBig(value)
	var ret []byte
	var logs types.Logs
	if create {
		ret, _, logs, err = e.K.EVMCreate(tctx, caller, input, v, nil)
	} else {
		ret, logs, err = e.K.EVMCall(tctx, caller, Dave, input, v, nil)
	}
	rt.Assert((err != nil) == (res.Error != ""), "a call query fails exactly when the call would")
	rt.Assert(res.UsedGas == tctx.GasMeter().GasConsumed(), "the gas of a call query is the gas the call would use")
	enough := value.Sign() == 0 || caller == Alice && value.Cmp(have) <= 0
	rt.Assert((err == nil) == (enough && (what == 0 || what == 2)), "a call fails exactly when it reverts, cannot pay its value or its message fails")
	if err != nil {
		rt.Reach("fails")
		rt.Assert(res.Response == "" && len(res.Logs) == 0, "a failed call query returns nothing")
		rt.Assert(res.Error == err.Error(), "the error of a call query is the error of the call")
		return
	}
	got, derr := hexutil.Decode(res.Response)
	rt.Assert(derr == nil && bytes.Equal(got, ret), "a call query returns what the call returns")
	rt.Assert(len(res.Logs) == len(logs), "a call query returns the logs of the call")
	for i := range logs {
		a, b := res.Logs[i], logs[i]
		rt.Assert(a.Address == b.Address && a.Data == b.Data && len(a.Topics) == len(b.Topics), "a log of a call query")
		for j := range a.Topics {
			rt.Assert(a.Topics[j] == b.Topics[j], "a topic of a call query")
		}
	}
	if !create {
		rt.Assert(len(logs) > 0 && logs[len(logs)-1].Address == Dave.Hex(), "the call logs")
		if what == 0 {
			rt.Assert(common.BytesToAddress(got[:32]) == caller, "the caller of a call query is its sender")
			rt.Assert(new(big.Int).SetBytes(got[32:64]).Cmp(value) == 0, "the value of a call query")
			rt.Assert(common.BytesToAddress(got[64:96]) == caller, "the origin of a call query is its sender")
			rt.Assert(new(big.Int).SetBytes(got[96:128]).Int64() == 0x55, "a call query reads the state")
		}
		rt.Reach("called")
	} else {
		rt.Reach("created")
	}
}

// ZV_QueryState: code, storage, token and parameter queries answer the state.
func ZV_QueryState() {
	t := NewTokens()
	qs := keeper.NewQueryServer(t.K)
	code := asm(arg(0), arg(1), opSSTORE, opSTOP)
	t.Deploy(Dave, code)
	slot, val := few("slot"), few("value")
	if _, _, err := t.K.EVMCall(t.Ctx, Bob, Dave, cat(val.Bytes(), slot.Bytes()), nil, nil); err != nil {
		panic(err)
	}
	text := func(a common.Address) string {
		if rt.Choice("bech32", 2) == 1 {
			return sdk.AccAddress(a.Bytes()).String()
		}
		return a.Hex()
	}
	ctx, _ := t.Ctx.CacheContext()
	switch rt.Choice("query", 6) {
	case 0:
		at := [3]common.Address{Dave, Alice, Carol}[rt.Choice("at", 3)]
		res, err := qs.Code(ctx, &types.QueryCodeRequest{ContractAddr: text(at)})
		rt.Assert(err == nil, "code query")
		got, err := hexutil.Decode(res.Code)
		want := code
		if at != Dave {
			want = nil
		}
		rt.Assert(err == nil && bytes.Equal(got, want), "the code query answers the code of the contract")
		rt.Reach("code")
	case 1:
		at := [2]common.Address{Dave, Carol}[rt.Choice("at", 2)]
		key := few("key")
		if rt.Choice("same", 2) == 1 {
			key = slot
		}
		k := key.Bytes()
		res, err := qs.State(ctx, &types.QueryStateRequest{ContractAddr: text(at), Key: hexutil.Encode(k)})
		rt.Assert(err == nil, "state query")
		got, err := hexutil.Decode(res.Value)
		want := common.Hash{}
		if at == Dave && key == slot {
			want = val
			rt.Reach("written")
		}
		rt.Assert(err == nil && common.BytesToHash(got) == want, "the state query answers the slot of the contract")
	case 2: // short key
		one := Word(big.NewInt(int64(rt.Range("small", 0, 255))))
		if _, _, err := t.K.EVMCall(ctx, Bob, Dave, cat(val.Bytes(), one.Bytes()), nil, nil); err != nil {
			panic(err)
		}
		res, err := qs.State(ctx, &types.QueryStateRequest{ContractAddr: text(Dave), Key: hexutil.Encode(one[31:])})
		rt.Assert(err == nil, "state query")
		got, err := hexutil.Decode(res.Value)
		rt.Assert(err == nil && common.BytesToHash(got) == val, "a short key is the number it writes")
		rt.Reach("short")
		return
	case 3:
		i := rt.Choice("token", 4)
		d := "unknown"
		if i < 3 {
			d = t.Denoms[i]
		}
		res, err := qs.ContractAddrByDenom(ctx, &types.QueryContractAddrByDenomRequest{Denom: d})
		if i == 3 {
			rt.Assert(err != nil, "an unknown denomination has no contract")
			return
		}
		rt.Assert(err == nil && common.IsHexAddress(res.Address), "the contract of a denomination")
		back, err := qs.Denom(ctx, &types.QueryDenomRequest{ContractAddr: text(common.HexToAddress(res.Address))})
		rt.Assert(err == nil && back.Denom == d, "the denomination of the contract of a denomination is the denomination")
		if i == 0 {
			rt.Assert(common.HexToAddress(res.Address) == t.Token, "the contract of a user's token")
		}
		// the contract really is the token of that denomination
		x := big.NewInt(5)
		t.Give(Bob, i, x)
		ret, err := t.K.EVMStaticCall(t.Ctx, Alice, common.HexToAddress(res.Address), cat(crypto.Keccak256([]byte("balanceOf(address)"))[:4], common.LeftPadBytes(Bob.Bytes(), 32)), nil)
		rt.Assert(err == nil && new(big.Int).SetBytes(ret).Cmp(x) == 0, "the contract of a denomination holds its balances")
		rt.Reach("denom")
	case 4:
		f, err := qs.ERC20Factory(ctx, &types.QueryERC20FactoryRequest{})
		w, err2 := qs.ERC20Wrapper(ctx, &types.QueryERC20WrapperRequest{})
		rt.Assert(err == nil && err2 == nil, "factory and wrapper")
		fa, err := t.K.GetERC20FactoryAddr(t.Ctx)
		wa, err2 := t.K.GetERC20WrapperAddr(t.Ctx)
		rt.Assert(err == nil && err2 == nil && common.HexToAddress(f.Address) == fa && common.HexToAddress(w.Address) == wa && fa != wa, "the factory and the wrapper are those of the chain")
		rt.Reach("factory")
	case 5:
		n := uint64(rt.Range("retain", 0, 127))
		on := rt.Choice("custom", 2) == 1
		t.EditParams(func(p *types.Params) {
			p.NumRetainBlockHashes, p.AllowCustomERC20 = n, on
			p.AllowedPublishers = []string{Alice.Hex()}
		})
		res, err := qs.Params(t.Ctx, &types.QueryParamsRequest{})
		rt.Assert(err == nil && res.Params.NumRetainBlockHashes == n && res.Params.AllowCustomERC20 == on && res.Params.FeeDenom == FeeDenom &&
			len(res.Params.AllowedPublishers) == 1 && res.Params.AllowedPublishers[0] == Alice.Hex() && len(res.Params.AllowedCustomERC20s) == 0, "the parameters query answers the parameters")
		rt.Reach("params")
	}
	rt.Assert(ctx.MultiStore().(*ve.MS).Written() == 0, "a query changes nothing")
}
