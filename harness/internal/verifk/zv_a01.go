package verifk

import (
	"context"
	"math/big"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/ethereum/go-ethereum/common"

	"github.com/initia-labs/minievm/app/posthandler"
	ve "github.com/initia-labs/minievm/internal/verifenv"
	rt "github.com/initia-labs/minievm/internal/verifrt"
	evmante "github.com/initia-labs/minievm/x/evm/ante"
	"github.com/initia-labs/minievm/x/evm/keeper"
	"github.com/initia-labs/minievm/x/evm/types"
)

// payments are the tokens as the refund sees them, with the payments noted.
type payments struct {
	types.IERC20Keeper
	list []payment
}

type payment struct {
	from, to sdk.AccAddress
	coins    sdk.Coins
}

func (p *payments) SendCoins(_ context.Context, from, to sdk.AccAddress, coins sdk.Coins) error {
	p.list = append(p.list, payment{from, to, coins})
	return nil
}

type refundKeeper struct {
	*keeper.Keeper
	p *payments
}

func (k refundKeeper) ERC20Keeper() types.IERC20Keeper { return k.p }

// refundBounds compares a refund with the share of the fee.
func refundBounds(ratio math.LegacyDec, limit, consumed uint64, fees, refund *big.Int) {
	left := uint64(0)
	if consumed < limit {
		left = limit - consumed
	}
	// refund <= ratio * left/limit * fee: no more than the share of the unused gas
	one := big.NewInt(1_000_000_000_000_000_000)
	l := new(big.Int).SetUint64(limit)
	share := new(big.Int).Mul(ratio.BigInt(), new(big.Int).SetUint64(left))
	most := new(big.Int).Mul(share, fees)
	den := new(big.Int).Mul(one, l)
	rt.Assert(new(big.Int).Mul(refund, den).Cmp(most) <= 0, "a refund is at most the refund ratio of the price of the unused gas")
	// and at least that for the gas rounded down, up to the rounding of the
	// price (10^-18 a unit of gas) and of the amount
	gas := new(big.Int).Quo(share, one)
	low := new(big.Int).Mul(gas, fees)
	least := new(big.Int).Add(refund, big.NewInt(1))
	least.Add(least, new(big.Int).Quo(gas, one))
	least.Mul(least, l)
	rt.Assert(low.Cmp(new(big.Int).Add(least, l)) < 0, "a refund is the refund ratio of the price of the unused gas")
}

var refundRatios = []string{"0.5", "0", "1", "0.333333333333333333"}

// ZV_RefundAmount: what is refunded for all fees.
func ZV_RefundAmount() {
	e := NewInit()
	ratio := math.LegacyMustNewDecFromStr(refundRatios[rt.Choice("ratio", len(refundRatios))])
	p := types.DefaultParams()
	p.FeeDenom = FeeDenom
	p.GasRefundRatio = ratio
	if err := e.K.Params.Set(e.Ctx, p); err != nil {
		panic(err)
	}
	key := SignerKey()
	acc := e.AK.NewAccountWithAddress(e.Ctx, sdk.AccAddress(key.Address()))
	e.AK.SetAccount(e.Ctx, acc)
	limits := []uint64{21_000, 1_000_003, 30_000_000, 1<<63 - 1}
	limit := limits[rt.Choice("limit", len(limits))]
	used := []uint64{0, 1, limit / 3, limit / 2, limit - 2, limit - 1, limit, limit + 1000}
	consumed := used[rt.Choice("used", len(used))]
	fee := rt.Big("fee", 150)
	rt.Assume(fee.Sign() > 0)
	tx := &Tx{Gas: limit, Fee: sdk.Coins{Coin(FeeDenom, fee)}, Memo: `{"type":0,"gas_fee_cap":"5","gas_tip_cap":"5"}`,
		Sigs: []signing.SignatureV2{{PubKey: key, Data: &signing.SingleSignatureData{SignMode: keeper.SignMode_SIGN_MODE_ETHEREUM}}},
		Msgs: []sdk.Msg{&types.MsgCall{Sender: sdk.AccAddress(key.Address()).String(), ContractAddr: Bob.Hex(), Value: math.ZeroInt()}}}
	meter := storetypes.NewGasMeter(limit)
	ctx := e.Ctx.WithExecMode(sdk.ExecModeFinalize).WithGasMeter(meter)
	var last sdk.Context
	if _, err := sdk.ChainAnteDecorators(evmante.NewGasPricesDecorator(), passed{&last})(ctx, tx, false); err != nil {
		rt.Assert(false, "a transaction with gas passes")
		return
	}
	func() {
		defer func() { recover() }()
		meter.ConsumeGas(consumed, "messages")
	}()
	at := meter.GasConsumed()
	ve.KVGas = true
	rec := &payments{IERC20Keeper: e.K.ERC20Keeper()}
	if _, err := posthandler.NewPostHandler(AuthAK{e.AK}, refundKeeper{e.K, rec})(last, tx, false, true); err != nil {
		rt.Assert(false, "the refund never fails")
		return
	}
	ve.KVGas = false
	rt.Assert(meter.GasConsumed() == at, "the refund costs no gas")
	refund := new(big.Int)
	if len(rec.list) > 0 {
		x := rec.list[0]
		rt.Assert(len(rec.list) == 1 && len(x.coins) == 1 && x.coins[0].Denom == FeeDenom, "a refund is one payment in the fee token")
		rt.Assert(x.from.Equals(ModAddr(authtypes.FeeCollectorName)) && x.to.Equals(sdk.AccAddress(key.Address())), "a refund goes from the fee collector to who paid the fee")
		refund = x.coins[0].Amount.BigInt()
		rt.Assert(refund.Sign() > 0, "a refund is an amount")
		rt.Reach("refunded")
	} else {
		rt.Reach("too little")
	}
	refundBounds(ratio, limit, consumed, fee, refund)
}

// ZV_GasRefund: a transaction passes the decorator that notes its gas price,
// uses gas, and passes the post handlers.
func ZV_GasRefund() {
	t := NewTokens()
	fc := common.BytesToAddress(ModAddr(authtypes.FeeCollectorName))
	key := SignerKey()
	signer := common.BytesToAddress(key.Address())
	accs := []common.Address{signer, Bob, Carol, fc}

	ratio := math.LegacyMustNewDecFromStr(refundRatios[rt.Choice("ratio", rt.Bound("ratios", 2, 4))])
	p := types.DefaultParams()
	p.FeeDenom = FeeDenom
	p.GasRefundRatio = ratio
	if err := t.K.Params.Set(t.Ctx, p); err != nil {
		panic(err)
	}

	acc := t.AK.NewAccountWithAddress(t.Ctx, signer.Bytes())
	t.AK.SetAccount(t.Ctx, acc)
	limit := uint64(1_000_003)
	used := []uint64{limit / 3, limit + 1000, 1}
	consumed := used[rt.Choice("used", rt.Bound("uses", 2, 3))]

	sender := sdk.AccAddress(signer.Bytes()).String()
	mode := signing.SignMode(keeper.SignMode_SIGN_MODE_ETHEREUM)
	memo := `{"type":2,"gas_fee_cap":"5","gas_tip_cap":"3"}`
	tx := &Tx{Gas: limit, Memo: memo, Sigs: []signing.SignatureV2{{PubKey: key, Data: &signing.SingleSignatureData{SignMode: mode}}}}
	tx.Msgs = []sdk.Msg{&types.MsgCall{Sender: sender, ContractAddr: Bob.Hex(), Value: math.ZeroInt()}}

	// what pays
	fees := new(big.Int).SetUint64([]uint64{1_000_000_007, 1, 1<<64 - 1}[rt.Choice("fee", rt.Bound("fees", 1, 3))])
	tx.Fee = sdk.Coins{Coin(FeeDenom, fees)}
	eth, success, exec, sim := true, true, sdk.ExecModeFinalize, false
	payer := 0
	switch rt.Choice("variant", 11) {
	case 1: // signed the Cosmos way
		tx.Sigs[0].Data = &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_DIRECT}
		eth = false
	case 2:
		tx.Memo = ""
		eth = false
	case 3: // two messages
		tx.Msgs = append(tx.Msgs, tx.Msgs[0])
		eth = false
	case 4:
		tx.Msgs = []sdk.Msg{&types.MsgCreate2{Sender: sender, Value: math.ZeroInt()}}
		eth = false
	case 5:
		success = false
	case 6:
		exec = sdk.ExecModeCheck
	case 7:
		exec, sim = sdk.ExecModeSimulate, true
	case 8: // another account paid
		tx.Payer = Bob.Bytes()
		payer = 1
	case 9: // a grant
		tx.Granter = Carol.Bytes()
		payer = 2
	case 10: // no fee at all
		tx.Fee, fees = nil, new(big.Int)
	}
	t.Give(fc, 1, fees)
	for i, a := range accs {
		x := big.NewInt(int64(10 * i))
		if i == payer || i == 3 {
			x.SetUint64(rt.U64("balance" + string(rune('0'+i))))
		}
		t.Give(a, 1, x.Add(x, big.NewInt(1)))
	}
	t.Give(fc, 2, big.NewInt(1000))
	var bal [4][3]*big.Int
	for a := range accs {
		for i, d := range t.Denoms {
			bal[a][i] = t.Bal(accs[a], d)
		}
	}
	sup := t.Supply(FeeDenom)

	meter := storetypes.NewGasMeter(limit)
	ctx := t.Ctx.WithExecMode(exec).WithGasMeter(meter)
	var last sdk.Context
	if _, err := sdk.ChainAnteDecorators(evmante.NewGasPricesDecorator(), passed{&last})(ctx, tx, sim); err != nil {
		rt.Assert(false, "a transaction with gas passes")
		return
	}
	func() {
		defer func() { recover() }()
		meter.ConsumeGas(consumed, "messages")
	}()
	at := meter.GasConsumed()
	ve.KVGas = true
	if _, err := posthandler.NewPostHandler(AuthAK{t.AK}, t.K)(last, tx, sim, success); err != nil {
		rt.Assert(false, "the refund never fails")
		return
	}
	ve.KVGas = false
	rt.Assert(meter.GasConsumed() == at, "the refund costs no gas")

	refund := new(big.Int).Sub(t.Bal(accs[payer], FeeDenom), bal[payer][1])
	for a := range accs {
		for i, d := range t.Denoms {
			w := new(big.Int).Set(bal[a][i])
			if i == 1 && a == payer {
				w.Add(w, refund)
			}
			if i == 1 && a == 3 {
				w.Sub(w, refund)
			}
			rt.Assert(BigEq(t.Bal(accs[a], d), w), "a refund goes from the fee collector to who paid the fee, and nothing else moves")
		}
	}
	rt.Assert(BigEq(t.Supply(FeeDenom), sup), "refunds keep the supply")
	rt.Assert(refund.Sign() >= 0, "nobody pays for a refund")
	if !eth || !success || exec != sdk.ExecModeFinalize {
		rt.Reach("nothing to refund")
		rt.Assert(refund.Sign() == 0, "only successful Ethereum transactions of a block are refunded")
		return
	}
	refundBounds(ratio, limit, consumed, fees, refund)
	if refund.Sign() > 0 {
		rt.Reach("refunded")
	} else {
		rt.Reach("too little")
	}
}
