package verifk

import (
	"context"
	"math/big"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/ethereum/go-ethereum/common"

	"github.com/initia-labs/minievm/app/ante"
	ve "github.com/initia-labs/minievm/internal/verifenv"
	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/types"
)

// grants is the feegrant keeper: one grant, from Carol to Bob.
type grants struct{ used *sdk.Coins }

func (g grants) UseGrantedFees(_ context.Context, granter, grantee sdk.AccAddress, fee sdk.Coins, _ []sdk.Msg) error {
	if !granter.Equals(sdk.AccAddress(Carol.Bytes())) || !grantee.Equals(sdk.AccAddress(Bob.Bytes())) {
		return types.ErrInvalidRequest
	}
	*g.used = fee
	return nil
}

// consume is an ante decorator after the fee.
type consume struct {
	gas uint64
	ran *bool
}

func (c consume) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bool, next sdk.AnteHandler) (sdk.Context, error) {
	*c.ran = true
	ctx.GasMeter().ConsumeGas(c.gas, "later decorator")
	return next(ctx, tx, simulate)
}

// ZV_Fees: the decorator that takes the fee of a transaction.
func ZV_Fees() {
	t := NewTokens()
	bank := t.RealBank(nil)
	fc := common.BytesToAddress(ModAddr(authtypes.FeeCollectorName))
	accs := []common.Address{Alice, Bob, Carol, fc}
	for _, a := range accs[:3] {
		acc := t.AK.NewAccountWithAddress(t.Ctx, a.Bytes())
		t.AK.SetAccount(t.Ctx, acc)
	}

	// what is paid, and by whom
	tx := &Tx{Msgs: []sdk.Msg{&types.MsgUpdateParams{Authority: sdk.AccAddress(Bob.Bytes()).String()}}, Gas: 1_000_000}
	payer := 1
	granted := true
	switch rt.Choice("payer", 5) {
	case 1: // another account pays (its signature is checked elsewhere)
		tx.Payer = Alice.Bytes()
		payer = 0
	case 2: // a grant
		tx.Granter = Carol.Bytes()
		payer = 2
	case 3: // no grant
		tx.Granter = Alice.Bytes()
		payer = 0
		granted = false
	case 4: // grants oneself
		tx.Granter = Bob.Bytes()
	}
	kinds := rt.Choice("denoms", 5) // none, fee token, second, both, user's token
	var idx []int
	switch kinds {
	case 1:
		idx = []int{1}
	case 2:
		idx = []int{2}
	case 3:
		idx = []int{1, 2}
	case 4:
		idx = []int{0}
	}
	simulate := rt.Choice("simulate", 2) == 1
	refuse := !simulate && rt.Choice("checker", 2) == 1
	var fee [3]*big.Int
	var bal [4][3]*big.Int
	var sup [3]*big.Int
	for i := range fee {
		fee[i] = new(big.Int)
	}
	for _, i := range idx {
		fee[i] = new(big.Int).SetUint64(rt.U64("fee" + string(rune('0'+i))))
		rt.Assume(fee[i].Sign() > 0)
		tx.Fee = append(tx.Fee, Coin(t.Denoms[i], fee[i]))
	}
	for _, i := range idx {
		t.Give(accs[payer], i, new(big.Int).SetUint64(rt.U64("bal"+string(rune('0'+i)))))
	}
	t.Give(fc, 1, big.NewInt(77))
	enough := true
	for i, d := range t.Denoms {
		sup[i] = t.Supply(d)
		for a := range accs {
			bal[a][i] = t.Bal(accs[a], d)
		}
		if bal[payer][i].Cmp(fee[i]) < 0 {
			enough = false
		}
	}

	checked := 0
	checker := func(sdk.Context, sdk.Tx) (sdk.Coins, int64, error) {
		checked++
		if refuse {
			return nil, 0, types.ErrInvalidRequest
		}
		return tx.Fee, 42, nil
	}
	var used sdk.Coins
	var ran bool
	var last sdk.Context
	g := rt.U64("gas")
	rt.Assume(g < 1<<40)
	meter := storetypes.NewGasMeter(5_000_000)
	ctx := t.Ctx.WithGasMeter(meter)
	h := sdk.ChainAnteDecorators(ante.NewGasFreeFeeDecorator(BankAK{t.AK, Modules}, bank, grants{&used}, t.K, checker), consume{g, &ran}, passed{&last})
	ve.KVGas = true
	var out sdk.Context
	var err error
	oog := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(storetypes.ErrorOutOfGas); !is {
					panic(r)
				}
				oog = true
			}
		}()
		out, err = h(ctx, tx, simulate)
	}()

	ve.KVGas = false

	want := !refuse && granted && enough
	rt.Assert(ran == want, "a transaction goes on exactly when its fee is accepted, granted and there")
	if !want {
		rt.Reach("refused")
		rt.Assert(!oog && err != nil, "a transaction whose fee is not paid is refused")
		if refuse {
			for i, d := range t.Denoms {
				for a := range accs {
					rt.Assert(BigEq(t.Bal(accs[a], d), bal[a][i]), "a refused fee takes nothing")
				}
			}
		}
		return
	}
	consumed := meter.GasConsumed()
	if kinds == 1 {
		// a fee in the fee token alone
		rt.Assert(consumed == g, "a fee in the fee token costs no gas, and all that follows is metered")
		rt.Assert(oog == (g > 5_000_000), "a transaction runs out of gas exactly when what follows the fee costs more than the limit")
	} else if kinds == 0 && simulate {
		rt.Assert(consumed == g+250_000, "the simulation of a transaction without a fee counts gas for the fee")
	} else if kinds == 0 {
		rt.Assert(consumed >= g && consumed < g+200_000, "no fee costs hardly any gas")
	} else {
		rt.Assert(consumed > g, "any other fee costs gas")
	}
	if oog {
		rt.Reach("out of gas")
		return
	}
	rt.Reach("paid")
	rt.Assert(err == nil, "a transaction whose fee is paid passes")
	rt.Assert(consumed <= 5_000_000 && out.GasMeter().Limit() == 5_000_000 && out.GasMeter().GasConsumed() == consumed, "the gas limit of the transaction holds after the fee")
	rt.Assert(last.GasMeter().Limit() == 5_000_000 && last.GasMeter().GasConsumed() == consumed, "the gas limit of the transaction holds for what follows the fee")
	if simulate {
		rt.Assert(checked == 0, "simulations do not check the fee")
	} else {
		rt.Assert(checked == 1 && last.Priority() == 42, "the fee is checked once and gives the priority")
	}
	rt.Assert(used.Equal(tx.Fee) == (tx.Granter != nil && payer == 2 || len(tx.Fee) == 0), "a grant is charged the fee")
	for i, d := range t.Denoms {
		rt.Assert(BigEq(t.Supply(d), sup[i]), "fees keep the supply")
		for a := range accs {
			w := new(big.Int).Set(bal[a][i])
			if a == payer {
				w.Sub(w, fee[i])
			}
			if accs[a] == fc {
				w.Add(w, fee[i])
			}
			rt.Assert(BigEq(t.Bal(accs[a], d), w), "exactly the fee goes from who pays it to the fee collector")
		}
	}
}
