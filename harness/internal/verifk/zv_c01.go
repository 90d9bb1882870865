package verifk

import (
	"bytes"
	"errors"
	"math"

	sdkmath "cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/baseapp"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	gogoproto "github.com/cosmos/gogoproto/proto"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"

	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	"github.com/initia-labs/minievm/x/evm/contracts/i_erc20_registry"
	"github.com/initia-labs/minievm/x/evm/keeper"
	cosmosprecompile "github.com/initia-labs/minievm/x/evm/precompiles/cosmos"
	registryprecompile "github.com/initia-labs/minievm/x/evm/precompiles/erc20_registry"
	"github.com/initia-labs/minievm/x/evm/types"
)

// ZV_CosmosSigner: a message sent through the precompile runs only when every
// signer it requires is the account that called the precompile.
func ZV_CosmosSigner() {
	e := NewInit()
	caller := Alice
	origin := sdk.AccAddress(caller.Bytes())
	var signers [][]byte
	n := rt.Choice("signers", 3)
	for i := 0; i < n; i++ {
		signers = append(signers, rt.Bytes("signer", []int{20, 32}[rt.Choice("signer length", 2)]))
	}
	ran := e.Notes(map[string]*Note{"m": {Tag: "m", From: signers}})
	in := cosmosIn("execute_cosmos", "m")

	var err error
	static := false
	switch rt.Choice("how", 6) {
	case 0: // a plain account
		_, _, err = e.K.EVMCall(e.Ctx, caller, cosmosAt, in, nil, nil)
	case 1: // a long account
		origin = rt.Bytes("origin", 32)
		copy(origin[12:], caller.Bytes())
		srv := keeper.NewMsgServerImpl(e.K)
		_, err = srv.Call(e.Ctx, &types.MsgCall{Sender: origin.String(), ContractAddr: cosmosAt.Hex(), Input: "0x" + common.Bytes2Hex(in), Value: sdkmath.ZeroInt()})
	case 2: // a contract
		e.Deploy(Carol, asm(callCode(opCALL, cosmosAt, in), ifNot()))
		origin = Carol.Bytes()
		_, _, err = e.K.EVMCall(e.Ctx, caller, Carol, nil, nil, nil)
	case 3: // a library acts for the contract that uses it
		e.Deploy(Dave, asm(callCode(opCALL, cosmosAt, in), ifNot()))
		e.Deploy(Carol, asm(callCode(opDELEGATECALL, Dave, nil), ifNot()))
		origin = Carol.Bytes()
		_, _, err = e.K.EVMCall(e.Ctx, caller, Carol, nil, nil, nil)
	case 4: // a contract that calls another one
		e.Deploy(Dave, asm(callCode(opCALL, cosmosAt, in), ifNot()))
		e.Deploy(Carol, asm(callCode(opCALL, Dave, nil), ifNot()))
		origin = Dave.Bytes()
		_, _, err = e.K.EVMCall(e.Ctx, caller, Carol, nil, nil, nil)
	case 5: // nothing is sent by a static call
		e.Deploy(Carol, asm(callCode(opSTATICCALL, cosmosAt, in), ifNot()))
		origin = Carol.Bytes()
		static = true
		_, _, err = e.K.EVMCall(e.Ctx, caller, Carol, nil, nil, nil)
	}
	allowed := !static
	for _, s := range signers {
		if !bytes.Equal(s, origin) {
			allowed = false
		}
	}
	rt.Assert((err == nil) == allowed, "a message is accepted exactly when the caller is every required signer")
	if allowed {
		rt.Reach("accepted")
		rt.Assert(len(*ran) == 1, "an accepted message is executed once")
	} else {
		rt.Reach("refused")
		rt.Assert(len(*ran) == 0, "a refused message is not executed")
	}
}

// ZV_PrecompileStatic: nothing called in a static context changes the state.
func ZV_PrecompileStatic() {
	e := NewInit()
	ran := e.Notes(map[string]*Note{"m": {Tag: "m"}})
	acc := Addr("account")
	rt.Assume(acc != Alice && acc != Bob && acc != Carol && acc != Dave)
	registered := rt.Choice("registered", 2) == 1
	var in []byte
	at := registryAt
	writes := true
	factory, err := e.K.GetERC20FactoryAddr(e.Ctx)
	if err != nil {
		panic(err)
	}
	self := Carol
	m := rt.Choice("method", 7)
	switch m {
	case 0:
		in = registryIn("register_erc20")
	case 1:
		in = registryIn("register_erc20_store", acc)
	case 2:
		in = registryIn("register_erc20_from_factory", acc)
		self = factory
	case 3:
		at, in = cosmosAt, cosmosIn("execute_cosmos", "m")
	case 4:
		in = registryIn("is_erc20_store_registered", acc)
		writes = false
	case 5:
		at, in = cosmosAt, cosmosIn("to_cosmos_address", acc)
		writes = false
	case 6:
		at, in = cosmosAt, cosmosIn("to_denom", acc)
		writes = false
	}
	if registered {
		if err := e.K.ERC20s.Set(e.Ctx, self.Bytes()); err != nil {
			panic(err)
		}
	}
	how := rt.Choice("how", 3)
	if how != 0 && m == 2 {
		return // the factory does not make static calls
	}
	switch how {
	case 0:
		_, err = e.K.EVMStaticCall(e.Ctx, self, at, in, nil)
	case 1:
		e.Deploy(Carol, asm(callCode(opSTATICCALL, at, in), ifNot()))
		_, _, err = e.K.EVMCall(e.Ctx, Alice, Carol, nil, nil, nil)
	case 2:
		e.Deploy(Carol, asm(callCode(opCALL, at, in), ifNot()))
		e.Deploy(Dave, asm(callCode(opSTATICCALL, Carol, nil), ifNot()))
		_, _, err = e.K.EVMCall(e.Ctx, Alice, Dave, nil, nil, nil)
	}
	if how == 2 && writes {
		rt.Assert(err != nil, "a call made by a contract that is itself called statically changes nothing")
	}
	rt.Assert((err == nil) == !writes, "only methods that change nothing succeed in a static call")
	if writes {
		rt.Reach("refused")
	} else {
		rt.Reach("answered")
	}
	rt.Assert(len(*ran) == 0, "a static call sends no message")
	is, err := e.K.ERC20s.Has(e.Ctx, self.Bytes())
	rt.Assert(err == nil && is == registered, "a static call registers no token")
	is, err = e.K.ERC20s.Has(e.Ctx, acc.Bytes())
	rt.Assert(err == nil && !is, "a static call registers no token")
	is, err = e.K.ERC20StoresKeeper().IsStoreRegistered(e.Ctx, acc.Bytes(), self)
	rt.Assert(err == nil && !is, "a static call registers no store")
	rt.Assert(!e.AK.HasAccount(e.Ctx, acc.Bytes()), "a static call makes no account")
}

// Ask is a query of another module.
type Ask struct{ A, B byte }

func (a *Ask) Reset()                   { *a = Ask{} }
func (*Ask) String() string             { return "ask" }
func (*Ask) ProtoMessage()              {}
func (a *Ask) Marshal() ([]byte, error) { return []byte{a.A, a.B}, nil }
func (a *Ask) Unmarshal(b []byte) error {
	if len(b) != 2 {
		return errors.New("length")
	}
	a.A, a.B = b[0], b[1]
	return nil
}

type askRouter struct {
	routes map[string]bool
	got    [][]byte
}

func (r *askRouter) Route(path string) baseapp.GRPCQueryHandler {
	if !r.routes[path] {
		return nil
	}
	return func(ctx sdk.Context, req *abci.RequestQuery) (*abci.ResponseQuery, error) {
		r.got = append(r.got, append([]byte(path), req.Data...))
		return &abci.ResponseQuery{Value: []byte{req.Data[0] ^ 0xff, req.Data[1] ^ 0xff}}, nil
	}
}

// ZV_CosmosQuery: only allowed queries are answered, and the answer depends on the request alone.
func ZV_CosmosQuery() {
	e := NewInit()
	r := &askRouter{routes: map[string]bool{"/q/a": true, "/q/b": true, "/q/c": true}}
	white := types.QueryCosmosWhitelist{
		"/q/a": {Request: &Ask{}, Response: &Ask{}},
		"/q/b": {Request: &Ask{}, Response: &Ask{}},
		"/q/d": {Request: &Ask{}, Response: &Ask{}},
	}
	// a request is a sequence of fields: 'a' or 'b' and a value, or '!' that is refused
	e.Cdc.Hooks.ReadJSON = func(bz []byte, o gogoproto.Message) error {
		a := o.(*Ask)
		for i := 0; i+1 < len(bz); i += 2 {
			switch bz[i] {
			case 'a':
				a.A = bz[i+1]
			case 'b':
				a.B = bz[i+1]
			default:
				return errors.New("unknown field")
			}
		}
		return nil
	}
	e.Cdc.Hooks.WriteJSON = func(o gogoproto.Message) ([]byte, error) { a := o.(*Ask); return []byte{a.A, a.B}, nil }
	p, err := cosmosprecompile.NewCosmosPrecompile(e.Cdc, AC{}, e.AK, e.Bank, e.K, r, white)
	if err != nil {
		panic(err)
	}
	abi, err := i_cosmos.ICosmosMetaData.GetAbi()
	if err != nil {
		panic(err)
	}
	for q := 0; q < 2; q++ {
		path := "/q/" + string(rt.Bytes("path", 1))
		var req []byte
		var want [2]byte
		bad := false
		for f := 0; f < 2 && !bad; f++ {
			v := rt.U8("value")
			switch rt.Choice("field", 4) {
			case 0:
			case 1:
				req = append(req, 'a', v)
				want[0] = v
			case 2:
				req = append(req, 'b', v)
				want[1] = v
			case 3:
				req = append(req, '!', v)
				bad = true
			}
		}
		in := cosmosIn("query_cosmos", path, string(req))
		r.got = nil
		ret, used, err := p.WithContext(e.Ctx).(vm.ExtendedPrecompiledContract).ExtendedRun(vm.AccountRef(Alice), in, 100_000, rt.Bool("read only"))
		ok := (path == "/q/a" || path == "/q/b") && !bad
		rt.Assert((err == nil) == ok, "a query is answered exactly when it is allowed and well formed")
		rt.Assert(used <= 100_000, "gas of a query")
		if err != nil {
			rt.Reach("refused")
			rt.Assert(len(r.got) == 0, "a refused query is not run")
			continue
		}
		rt.Reach("answered")
		rt.Assert(len(r.got) == 1 && bytes.Equal(r.got[0], append([]byte(path), want[:]...)), "the query that is run is the one asked for")
		out, err := abi.Methods["query_cosmos"].Outputs.Unpack(ret)
		rt.Assert(err == nil, "answer")
		got := []byte(out[0].(string))
		rt.Assert(len(got) == 2 && got[0] == want[0]^0xff && got[1] == want[1]^0xff, "the answer is that of the query")
	}
}

// ZV_PrecompileGas: gas charged by the precompiles.
func ZV_PrecompileGas() {
	e := NewInit()
	e.Notes(map[string]*Note{"m": {Tag: "m"}})
	cp, err := cosmosprecompile.NewCosmosPrecompile(e.Cdc, AC{}, e.AK, e.Bank, e.K, &askRouter{routes: map[string]bool{}}, types.QueryCosmosWhitelist{})
	if err != nil {
		panic(err)
	}
	rp, err := registryprecompile.NewERC20RegistryPrecompile(e.K.ERC20StoresKeeper())
	if err != nil {
		panic(err)
	}
	acc := Addr("account")
	var in []byte
	var p types.WithContext = cp
	var base uint64
	m := rt.Choice("method", 11)
	switch m {
	case 0:
		in, base = cosmosIn("is_blocked_address", acc), 100
	case 1:
		in, base = cosmosIn("is_module_address", acc), 200
	case 2:
		in, base = cosmosIn("to_cosmos_address", acc), 200
	case 3:
		in, base = cosmosIn("to_evm_address", sdk.AccAddress(Bob.Bytes()).String()), 200
	case 4:
		in, base = cosmosIn("execute_cosmos", "m"), 200
	case 5:
		in, base = cosmosIn("to_denom", acc), 100
	case 6:
		in, base = cosmosIn("to_erc20", FeeDenom), 100
	case 7:
		p, in, base = rp, registryIn("register_erc20"), 200
	case 8:
		p, in, base = rp, registryIn("register_erc20_store", acc), 200
	case 9:
		p, in, base = rp, registryIn("is_erc20_store_registered", acc), 200
	case 10: // anything else
		n := []int{0, 3, 4, 36}[rt.Choice("length", 4)]
		in = rt.Bytes("input", n)
		if rt.Choice("registry", 2) == 1 {
			p = rp
		}
	}
	gas := rt.U64("gas")
	rt.Assume(gas < math.MaxInt64)
	ctx := e.Ctx.WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
	_, used, err := p.WithContext(ctx).(vm.ExtendedPrecompiledContract).ExtendedRun(vm.AccountRef(Carol), in, gas, false)
	rt.Assert(used <= gas+1, "a precompile uses at most one more than it was given")
	if m == 10 {
		rt.Reach("arbitrary input")
		return
	}
	if gas < base+uint64(len(in)) {
		rt.Assert(err == nil && used == gas+1, "too little gas runs out of gas")
		rt.Reach("out of gas")
	} else if err == nil && used <= gas {
		rt.Assert(used >= base+uint64(len(in)), "at least the base cost and the cost of the input are charged")
		rt.Reach("enough")
	}
	if gas >= 100_000 {
		rt.Assert(err == nil && used < 100_000, "the call succeeds with enough gas")
	}
}

// ZV_AddressMethods: answers of the address methods.
func ZV_AddressMethods() {
	e := NewInit()
	p, err := cosmosprecompile.NewCosmosPrecompile(e.Cdc, AC{}, e.AK, e.Bank, e.K, &askRouter{}, types.QueryCosmosWhitelist{})
	if err != nil {
		panic(err)
	}
	abi, err := i_cosmos.ICosmosMetaData.GetAbi()
	if err != nil {
		panic(err)
	}
	_ = i_erc20_registry.IErc20RegistryMetaData
	run := func(method string, arg any) (any, error) {
		ret, used, err := p.WithContext(e.Ctx).(vm.ExtendedPrecompiledContract).ExtendedRun(vm.AccountRef(Carol), cosmosIn(method, arg), 1_000_000, true)
		if err != nil {
			return nil, err
		}
		rt.Assert(used <= 1_000_000, "gas")
		out, err := abi.Methods[method].Outputs.Unpack(ret)
		rt.Assert(err == nil, "output")
		return out[0], nil
	}
	a := Addr("address")
	origin := sdk.AccAddress(a.Bytes())
	kind := rt.Choice("account", 5)
	switch kind {
	case 1:
		e.AK.SetAccount(e.Ctx, e.AK.NewAccountWithAddress(e.Ctx, a.Bytes()))
	case 2:
		origin = append(sdk.AccAddress(rt.Bytes("prefix", 12)), a.Bytes()...)
		acc, err := types.NewShorthandAccountWithAddress(AC{}, origin)
		if err != nil {
			panic(err)
		}
		e.AK.SetAccount(e.Ctx, acc)
	case 3:
		e.AK.SetAccount(e.Ctx, &authtypes.ModuleAccount{BaseAccount: authtypes.NewBaseAccountWithAddress(a.Bytes()), Name: "m"})
	case 4:
		e.Deploy(a, codeStop)
	}
	mod := kind == 3
	if kind == 2 && rt.Choice("module", 2) == 1 {
		mod = true
		e.AK.SetAccount(e.Ctx, &authtypes.ModuleAccount{BaseAccount: authtypes.NewBaseAccountWithAddress(origin), Name: "m"})
	}
	blocked := false
	if rt.Choice("blocked", 2) == 1 {
		b := sdk.AccAddress(rt.Bytes("blocked address", 20))
		e.Bank.Blocked[string(b)] = true
		blocked = bytes.Equal(b, origin)
	} else if rt.Choice("origin blocked", 2) == 1 {
		e.Bank.Blocked[string(origin)] = true
		blocked = true
	}
	out, err := run("is_blocked_address", a)
	rt.Assert(err == nil && out.(bool) == blocked, "is_blocked_address answers for the account behind the address")
	out, err = run("is_module_address", a)
	rt.Assert(err == nil && out.(bool) == mod, "is_module_address answers for the account behind the address")
	out, err = run("to_cosmos_address", a)
	rt.Assert(err == nil && out.(string) == sdk.AccAddress(a.Bytes()).String(), "to_cosmos_address")
	out, err = run("to_evm_address", sdk.AccAddress(a.Bytes()).String())
	rt.Assert(err == nil && out.(common.Address) == a, "to_evm_address is the inverse of to_cosmos_address")
	if len(origin) > 20 {
		_, err = run("to_evm_address", origin.String())
		rt.Assert(err != nil, "to_evm_address takes 20-byte addresses only")
		rt.Reach("long")
	}
	rt.Reach("end")
}
