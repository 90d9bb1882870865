package verifk

import (
	"math/big"

	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"

	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/types"
)

// ZV_BankExport: exporting the tokens and the bank and importing both, in the
// order of the chain, keeps every balance, supply and setting.
func ZV_BankExport() {
	t := NewTokens()
	b := t.RealBank(nil)
	accs := []common.Address{Alice, Bob, common.BytesToAddress(ModAddr("all"))}
	n := rt.Bound("tokens", 2, 3)
	var bal [3][3]*big.Int
	for a := range accs {
		for i := 0; i < n; i++ {
			bal[a][i] = big.NewInt(0)
			if a == 1 || i == 0 || n == 3 {
				bal[a][i] = new(big.Int).SetUint64(rt.U64("bal" + string(rune('0'+a)) + string(rune('0'+i))))
				t.Give(accs[a], i, bal[a][i])
			}
		}
	}
	// an account with a 32-byte address, paid, and an EVM account or not
	var lbal *big.Int
	if l := rt.Choice("long", 3); l > 0 {
		t.AK.SetAccount(t.Ctx, t.AK.NewAccountWithAddress(t.Ctx, long))
		lbal = new(big.Int).SetUint64(rt.U64("long"))
		rt.Assume(lbal.Sign() > 0)
		must(t.K.ERC20Keeper().MintCoins(t.Ctx, long, sdk.Coins{Coin(FeeDenom, lbal)}))
		if l == 2 {
			e := t.AK.GetAccount(t.Ctx, Carol.Bytes())
			rt.Assert(e != nil, "a holder has an account")
			s, err := types.NewShorthandAccountWithAddress(AC{}, long)
			must(err)
			must(s.SetAccountNumber(e.GetAccountNumber()))
			t.AK.SetAccount(t.Ctx, s)
		}
	}
	var sup [3]*big.Int
	for i := 0; i < n; i++ {
		sup[i] = t.Supply(t.Denoms[i])
	}
	p := banktypes.DefaultParams()
	p.DefaultSendEnabled = rt.Choice("default", 2) == 1
	must(b.SetParams(t.Ctx, p))
	set := rt.Choice("setting", 3)
	if set > 0 {
		b.SetSendEnabled(t.Ctx, FeeDenom, set == 2)
	}
	md := rt.Choice("metadata", 2) == 1
	if md {
		b.SetDenomMetaData(t.Ctx, banktypes.Metadata{Base: FeeDenom, Display: FeeDenom, Name: "n", Symbol: "s", DenomUnits: []*banktypes.DenomUnit{{Denom: FeeDenom}}})
	}

	gs := t.K.ExportGenesis(t.Ctx)
	bs := b.ExportGenesis(t.Ctx)

	f := New()
	fb := f.RealBank(nil)
	for _, acc := range t.AK.All(t.Ctx) {
		f.AK.SetAccount(f.Ctx, acc)
	}
	must(f.K.InitGenesis(f.Ctx, *gs))
	ok := false
	func() {
		defer func() {
			if recover() != nil {
				rt.Assert(false, "an exported state can be imported")
			}
		}()
		fb.InitGenesis(f.Ctx, bs)
		ok = true
	}()
	if !ok {
		return
	}
	rt.Reach("imported")
	for i := 0; i < n; i++ {
		d := t.Denoms[i]
		for a := range accs {
			rt.Assert(BigEq(fb.GetBalance(f.Ctx, sdk.AccAddress(accs[a].Bytes()), d).Amount.BigInt(), bal[a][i]), "every balance is kept")
		}
		rt.Assert(BigEq(fb.GetSupply(f.Ctx, d).Amount.BigInt(), sup[i]), "every supply is kept")
	}
	if lbal != nil {
		rt.Reach("long")
		rt.Assert(BigEq(fb.GetBalance(f.Ctx, long, FeeDenom).Amount.BigInt(), lbal), "every balance is kept")
	}
	same(t.Env, f)
	rt.Assert(fb.GetParams(f.Ctx).DefaultSendEnabled == p.DefaultSendEnabled, "the default send setting is kept")
	e, has := fb.GetSendEnabledEntry(f.Ctx, FeeDenom)
	rt.Assert(has == (set > 0) && (!has || e.Enabled == (set == 2)), "the send settings are kept")
	m, has := fb.GetDenomMetaData(f.Ctx, FeeDenom)
	rt.Assert(has == md && (!md || m.Symbol == "s" && len(m.DenomUnits) == 1), "the metadata is kept")
}

// ZV_BankGenesis: a new chain starts with the balances that its genesis lists.
func ZV_BankGenesis() {
	t := NewTokens()
	b := t.RealBank(nil)
	accs := []common.Address{Bob, Carol}
	var bal [2][2]*big.Int
	bs := banktypes.DefaultGenesisState()
	denoms := []string{FeeDenom, SecondDenom}
	total := sdk.Coins{}
	var sup [2]*big.Int
	for i, d := range denoms {
		sup[i] = t.Supply(d)
	}
	for a, acc := range accs {
		var coins sdk.Coins
		for i, d := range denoms {
			bal[a][i] = new(big.Int).SetUint64(rt.U64("bal" + string(rune('0'+a)) + d[:1]))
			if bal[a][i].Sign() > 0 {
				coins = append(coins, Coin(d, bal[a][i]))
			}
		}
		bs.Balances = append(bs.Balances, banktypes.Balance{Address: sdk.AccAddress(acc.Bytes()).String(), Coins: coins})
		total = total.Add(coins...)
	}
	// the stated supply, if any, has to be the sum
	right := true
	switch rt.Choice("supply", 3) {
	case 1:
		bs.Supply = total
	case 2:
		x := new(big.Int).SetUint64(rt.U64("supply"))
		rt.Assume(x.Sign() > 0)
		bs.Supply = sdk.NewCoins(Coin(FeeDenom, x))
		right = BigEq(x, new(big.Int).Add(bal[0][0], bal[1][0])) && bal[0][1].Sign() == 0 && bal[1][1].Sign() == 0
	}
	ok := false
	func() {
		defer func() { recover() }()
		b.InitGenesis(t.Ctx, bs)
		ok = true
	}()
	rt.Assert(ok == right, "a genesis starts the chain exactly when the stated supply is the sum of the balances")
	if !ok {
		rt.Reach("refused")
		return
	}
	rt.Reach("started")
	for i, d := range denoms {
		sum := new(big.Int).Set(sup[i])
		for a, acc := range accs {
			rt.Assert(BigEq(t.Bal(acc, d), bal[a][i]), "every account has the balance that the genesis lists")
			sum.Add(sum, bal[a][i])
		}
		rt.Assert(BigEq(t.Supply(d), sum), "the supply is the sum")
	}
}
