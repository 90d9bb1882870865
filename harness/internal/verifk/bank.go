package verifk

import (
	"context"
	"sort"

	"cosmossdk.io/core/address"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	ve "github.com/initia-labs/minievm/internal/verifenv"
	bankkeeper "github.com/initia-labs/minievm/x/bank/keeper"
)

// BankAK is the account keeper seen by x/bank, with a few module accounts.
type BankAK struct {
	*ve.AK
	Perms map[string][]string
}

func (BankAK) AddressCodec() address.Codec { return AC{} }
func (k BankAK) GetParams(context.Context) (p authtypes.Params) {
	return authtypes.DefaultParams()
}
func (k BankAK) GetAllAccounts(ctx context.Context) []sdk.AccountI { return k.All(ctx) }
func (k BankAK) IterateAccounts(ctx context.Context, f func(sdk.AccountI) bool) {
	for _, a := range k.All(ctx) {
		if f(a) {
			return
		}
	}
}
func (k BankAK) ValidatePermissions(sdk.ModuleAccountI) error { return nil }
func (k BankAK) GetModuleAddress(name string) sdk.AccAddress {
	if _, ok := k.Perms[name]; !ok {
		return nil
	}
	return ModAddr(name)
}
func (k BankAK) GetModuleAddressAndPermissions(name string) (sdk.AccAddress, []string) {
	return k.GetModuleAddress(name), k.Perms[name]
}
func (k BankAK) GetModuleAccountAndPermissions(ctx context.Context, name string) (sdk.ModuleAccountI, []string) {
	p, ok := k.Perms[name]
	if !ok {
		return nil, nil
	}
	a := ModAddr(name)
	if acc := k.GetAccount(ctx, a); acc != nil {
		return acc.(sdk.ModuleAccountI), p
	}
	m := authtypes.NewModuleAccount(authtypes.NewBaseAccountWithAddress(a), name, p...)
	k.SetAccount(ctx, k.NewAccount(ctx, m))
	return m, p
}
func (k BankAK) GetModuleAccount(ctx context.Context, name string) sdk.ModuleAccountI {
	m, _ := k.GetModuleAccountAndPermissions(ctx, name)
	return m
}
func (k BankAK) SetModuleAccount(ctx context.Context, m sdk.ModuleAccountI) { k.SetAccount(ctx, m) }
func (k BankAK) GetModulePermissions() map[string]authtypes.PermissionsForAddress {
	r := map[string]authtypes.PermissionsForAddress{}
	for n, p := range k.Perms {
		r[n] = authtypes.NewPermissionsForAddress(n, p)
	}
	return r
}

// Modules of the harness and their permissions.
var Modules = map[string][]string{
	authtypes.FeeCollectorName: nil,
	"minter":                   {authtypes.Minter},
	"burner":                   {authtypes.Burner},
	"staker":                   {authtypes.Staking},
	"all":                      {authtypes.Burner, authtypes.Minter, authtypes.Staking},
}

func modNames() (r []string) {
	for n := range Modules {
		r = append(r, n)
	}
	sort.Strings(r)
	return
}

// ModAddr is the address of a module account.
func ModAddr(name string) sdk.AccAddress { return authtypes.NewModuleAddress(name) }

// RealBank is the x/bank keeper of the chain over the environment's tokens.
func (e *Env) RealBank(blocked map[string]bool) bankkeeper.BaseKeeper {
	k := bankkeeper.NewBaseKeeper(e.Cdc, ve.Service{Store: ve.StoreBank}, BankAK{e.AK, Modules}, e.K.ERC20Keeper(), blocked, Authority.String())
	if err := k.SetParams(e.Ctx, banktypes.DefaultParams()); err != nil {
		panic(err)
	}
	// module accounts exist from the genesis on
	for _, n := range modNames() {
		(BankAK{e.AK, Modules}).GetModuleAccount(e.Ctx, n)
	}
	return k
}
