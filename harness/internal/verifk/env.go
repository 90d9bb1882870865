// Package verifk builds the real EVM keeper over the verification environment.
package verifk

import (
	"context"
	"errors"
	"math/big"

	"cosmossdk.io/core/address"
	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	"github.com/cosmos/cosmos-sdk/baseapp"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/holiman/uint256"

	ve "github.com/initia-labs/minievm/internal/verifenv"
	rt "github.com/initia-labs/minievm/internal/verifrt"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"
	"github.com/initia-labs/minievm/x/evm/keeper"
	"github.com/initia-labs/minievm/x/evm/state"
	"github.com/initia-labs/minievm/x/evm/types"
)

func CloneAcc(a sdk.AccountI) sdk.AccountI {
	switch x := a.(type) {
	case *types.ContractAccount:
		b := *x.BaseAccount
		c := *x
		c.BaseAccount = &b
		return &c
	case *types.ShorthandAccount:
		b := *x.BaseAccount
		c := *x
		c.BaseAccount = &b
		return &c
	}
	panic("unknown account type")
}

// Bank is the bank keeper seen by x/evm.
type Bank struct{ Blocked map[string]bool }

func (b *Bank) BlockedAddr(a sdk.AccAddress) bool { return b.Blocked[string(a)] }

type Fund struct {
	Amount sdk.Coins
	From   sdk.AccAddress
}

// Pool records what is sent to the community pool.
type Pool struct{ Got []Fund }

func (p *Pool) FundCommunityPool(_ context.Context, amt sdk.Coins, from sdk.AccAddress) error {
	p.Got = append(p.Got, Fund{amt, from})
	return nil
}

type GasPrice struct {
	Price math.LegacyDec
	Denom string
	Fail  bool
}

func (g *GasPrice) GasPrice(_ context.Context, denom string) (math.LegacyDec, error) {
	if g.Fail {
		return math.LegacyDec{}, errors.New("no price")
	}
	if denom != g.Denom {
		return math.LegacyZeroDec(), nil
	}
	return g.Price, nil
}

// Router records the messages it is given.
type Router struct {
	Handle      func(ctx sdk.Context, msg sdk.Msg) (*sdk.Result, error)
	Unsupported func(msg sdk.Msg) bool
}

func (r *Router) Handler(msg sdk.Msg) baseapp.MsgServiceHandler {
	if r.Handle == nil || r.Unsupported != nil && r.Unsupported(msg) {
		return nil
	}
	return func(ctx sdk.Context, req sdk.Msg) (*sdk.Result, error) { return r.Handle(ctx, req) }
}
func (r *Router) HandlerByTypeURL(string) baseapp.MsgServiceHandler { return nil }

// AC is the account address codec: hex on the wire (bech32 is modelled elsewhere).
type AC struct{}

func (AC) StringToBytes(s string) ([]byte, error) { return sdk.AccAddressFromBech32(s) }
func (AC) BytesToString(b []byte) (string, error) { return sdk.AccAddress(b).String(), nil }

var _ address.Codec = AC{}

type Env struct {
	K      *keeper.Keeper
	Ctx    sdk.Context
	AK     *ve.AK
	Bank   *Bank
	Pool   *Pool
	Gas    *GasPrice
	Router *Router
	Cdc    ve.Cdc
}

const FeeDenom = "umin"

var Authority = sdk.AccAddress(common.HexToAddress("0x00000000000000000000000000000000000000aa").Bytes())

func New() *Env {
	e := &Env{AK: &ve.AK{CloneFn: CloneAcc}, Bank: &Bank{Blocked: map[string]bool{}}, Pool: &Pool{}, Router: &Router{}, Cdc: ve.Cdc{Hooks: &ve.CdcHooks{}}}
	e.Gas = &GasPrice{Price: math.LegacyZeroDec(), Denom: FeeDenom}
	e.Ctx = ve.NewCtx().WithGasMeter(storetypes.NewGasMeter(1_000_000_000)).WithChainID("minievm-1").WithBlockHeight(100)
	e.K = keeper.NewKeeper(AC{}, e.Cdc, ve.Service{Store: ve.StoreMain}, ve.Service{Store: ve.StoreTransient},
		e.AK, e.Bank, e.Pool, e.Gas, e.Router, nil, Authority.String(), evmconfig.DefaultEVMConfig(), types.QueryCosmosWhitelist{})
	return e
}

// SetParams stores the default parameters with the fee denom.
func (e *Env) SetParams() {
	p := types.DefaultParams()
	p.FeeDenom = FeeDenom
	if err := e.K.Params.Set(e.Ctx, p); err != nil {
		panic(err)
	}
}

// NewInit returns the environment after the chain's genesis initialization
// (the real ERC20 factory, fee token and wrapper contracts are deployed).
func NewInit() *Env {
	return rt.Once("verifk.NewInit", func() any {
		e := New()
		e.SetParams()
		if err := e.K.Initialize(e.Ctx); err != nil {
			panic(err)
		}
		return e
	}).(*Env)
}

// EVM starts a transaction of the caller and returns its state.
func (e *Env) EVM(caller common.Address) (sdk.Context, *vm.EVM, *state.StateDB) {
	c, evm, err := e.K.CreateEVM(e.Ctx, caller, nil)
	if err != nil {
		panic(err)
	}
	return sdk.UnwrapSDKContext(c), evm, evm.StateDB.(*state.StateDB)
}

// StateDB starts a transaction on the given context.
func (e *Env) StateDB(ctx sdk.Context, caller common.Address) (sdk.Context, *state.StateDB, error) {
	c, evm, err := e.K.CreateEVM(ctx, caller, nil)
	if err != nil {
		return ctx, nil, err
	}
	return sdk.UnwrapSDKContext(c), evm.StateDB.(*state.StateDB), nil
}

// Mint gives native tokens to an address.
func (e *Env) Mint(a common.Address, denom string, x *big.Int) {
	if x.Sign() == 0 {
		return
	}
	err := e.K.ERC20Keeper().MintCoins(e.Ctx, a.Bytes(), sdk.Coins{sdk.Coin{Denom: denom, Amount: math.NewIntFromBigInt(x)}})
	if err != nil {
		panic(err)
	}
}

// Bal is the balance as the chain reports it.
func (e *Env) Bal(a common.Address, denom string) *big.Int {
	b, err := e.K.ERC20Keeper().GetBalance(e.Ctx, a.Bytes(), denom)
	if err != nil {
		panic(err)
	}
	return b.BigInt()
}

func (e *Env) Supply(denom string) *big.Int {
	b, err := e.K.ERC20Keeper().GetSupply(e.Ctx, denom)
	if err != nil {
		panic(err)
	}
	return b.BigInt()
}

// Addr returns a symbolic address: the first byte is fixed, so that it is
// neither a precompile nor a contract of the genesis state.
func Addr(name string) common.Address {
	return common.BytesToAddress(append([]byte{0x5e}, rt.Bytes(name, 19)...))
}

func Hash(name string) common.Hash { return common.BytesToHash(rt.Bytes(name, 32)) }

func U256(name string) *uint256.Int { return new(uint256.Int).SetBytes32(rt.Bytes(name, 32)) }

func BigEq(a, b *big.Int) bool { return a.Cmp(b) == 0 }
