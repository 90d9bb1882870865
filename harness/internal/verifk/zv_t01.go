package verifk

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authante "github.com/cosmos/cosmos-sdk/x/auth/ante"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"

	"github.com/initia-labs/minievm/app/ante"
	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/keeper"
	"github.com/initia-labs/minievm/x/evm/types"
)

// feeToken makes the fee token one with 18, 6 or 0 decimals.
func feeToken(n int) (*Env, *big.Int) {
	t := NewTokens()
	e := rt.Once("verifk.feeToken", func() any {
		if err := t.K.ERC20Keeper().CreateERC20(t.Ctx, "six", 6); err != nil {
			panic(err)
		}
		return t.Env
	}).(*Env)
	i := rt.Choice("decimals", n)
	d := []string{FeeDenom, "six", SecondDenom}[i]
	if i > 0 {
		e.EditParams(func(p *types.Params) { p.FeeDenom = d })
	}
	return e, []*big.Int{big.NewInt(1), big.NewInt(1_000_000_000_000), big.NewInt(1_000_000_000_000_000_000)}[i]
}

func feeDenom(e *Env) string {
	p, err := e.K.Params.Get(e.Ctx)
	if err != nil {
		panic(err)
	}
	return p.FeeDenom
}

var gasPrices = []string{"0", "1500000007", "1", "340282366920938463463374607431768211456"}

func price(i int) *big.Int {
	x, _ := new(big.Int).SetString(gasPrices[i], 10)
	return x
}

func ethChain(e *Env) *big.Int { return types.ConvertCosmosChainIDToEthereumChainID(e.Ctx.ChainID()) }

type ethTx struct {
	typ   int
	nonce uint64
	gas   uint64
	cap   *big.Int
	tip   *big.Int
	to    *common.Address
	value *big.Int
	data  []byte
	al    coretypes.AccessList
}

func (x *ethTx) tx(chain *big.Int, v, r, s *big.Int) *coretypes.Transaction {
	switch x.typ {
	case 0:
		return coretypes.NewTx(&coretypes.LegacyTx{Nonce: x.nonce, GasPrice: x.cap, Gas: x.gas, To: x.to, Value: x.value, Data: x.data, V: v, R: r, S: s})
	case 1:
		return coretypes.NewTx(&coretypes.AccessListTx{ChainID: chain, Nonce: x.nonce, GasPrice: x.cap, Gas: x.gas, To: x.to, Value: x.value, Data: x.data, AccessList: x.al, V: v, R: r, S: s})
	}
	return coretypes.NewTx(&coretypes.DynamicFeeTx{ChainID: chain, Nonce: x.nonce, GasTipCap: x.tip, GasFeeCap: x.cap, Gas: x.gas, To: x.to, Value: x.value, Data: x.data, AccessList: x.al, V: v, R: r, S: s})
}

// anyEth is an Ethereum transaction: any nonce, gas limit, recipient and value.
func anyEth(n string, prices int) *ethTx {
	x := &ethTx{typ: rt.Choice(n+"type", 3), nonce: rt.U64(n + "nonce"), gas: rt.U64(n + "gas"), value: rt.Big(n+"value", 256)}
	x.cap = price(rt.Choice(n+"cap", prices))
	x.tip = x.cap
	if x.typ == 2 {
		x.tip = big.NewInt(3)
	}
	if k := rt.Choice(n+"create", 3); k < 2 {
		x.data = rt.Bytes(n+"data", 2)
		if k == 0 {
			a := Addr(n + "to")
			x.to = &a
		}
	}
	if x.typ > 0 && rt.Choice(n+"list", 2) == 1 {
		x.al = coretypes.AccessList{{Address: Addr(n + "al"), StorageKeys: []common.Hash{Hash(n + "key")}}}
	}
	return x
}

func sameList(a, b coretypes.AccessList) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Address != b[i].Address || len(a[i].StorageKeys) != len(b[i].StorageKeys) {
			return false
		}
		for j := range a[i].StorageKeys {
			if a[i].StorageKeys[j] != b[i].StorageKeys[j] {
				return false
			}
		}
	}
	return true
}

// ZV_EthRoundTrip: a signed Ethereum transaction becomes a transaction of the
// chain that does the same thing in the signer's name, and turns back into the
// Ethereum transaction it was.
func ZV_EthRoundTrip() {
	e, unit := feeToken(3)
	chain := ethChain(e)
	signer := coretypes.LatestSignerForChainID(chain)
	x := anyEth("", rt.Bound("gas prices", 2, 4))
	plain := x.tx(chain, nil, nil, nil)
	sig := Sign(signer.Hash(plain))
	et, err := plain.WithSignature(signer, sig)
	if err != nil {
		panic(err)
	}
	ctx := e.txCodec()
	got, err := keeper.NewTxUtils(ctx).ConvertEthereumTxToCosmosTx(e.Ctx, et)
	exact := new(big.Int).Mod(x.value, unit).Sign() == 0
	if err != nil {
		rt.Reach("refused")
		rt.Assert(!exact, "only a value that is not a whole number of token units is refused")
		return
	}
	rt.Reach("converted")
	rt.Assert(exact, "a value that is not a whole number of token units is refused")
	ft := got.(sdk.FeeTx)
	rt.Assert(ft.GetGas() == x.gas, "the gas limit is the signed one")
	denom := feeDenom(e)
	paid := ft.GetFee().AmountOf(denom).BigInt()
	rt.Assert(len(ft.GetFee()) <= 1 && (len(ft.GetFee()) == 1) == (paid.Sign() > 0), "the fee is in the fee token")
	most := new(big.Int).Mul(x.cap, new(big.Int).SetUint64(x.gas))
	rt.Assert(new(big.Int).Mul(paid, unit).Cmp(most) >= 0, "the fee covers the signed gas price")
	rt.Assert(x.cap.Sign() != 0 || paid.Sign() == 0, "no fee at gas price zero")
	rt.Assert(new(big.Int).Mul(new(big.Int).Sub(paid, big.NewInt(1)), unit).Cmp(most) <= 0, "the fee is at most one unit above the signed price")
	msgs := got.GetMsgs()
	rt.Assert(len(msgs) == 1, "one message")
	amount := new(big.Int).Div(x.value, unit)
	sender := sdk.AccAddress(Signer.Bytes()).String()
	var in string
	var al []types.AccessTuple
	if x.to == nil {
		m, ok := msgs[0].(*types.MsgCreate)
		rt.Assert(ok, "a transaction without recipient creates")
		rt.Assert(m.Sender == sender && BigEq(m.Value.BigInt(), amount), "sender and value of the creation")
		in, al = m.Code, m.AccessList
	} else {
		m, ok := msgs[0].(*types.MsgCall)
		rt.Assert(ok, "a transaction with a recipient calls")
		rt.Assert(m.Sender == sender && BigEq(m.Value.BigInt(), amount), "sender and value of the call")
		rt.Assert(common.HexToAddress(m.ContractAddr) == *x.to, "recipient of the call")
		in, al = m.Input, m.AccessList
	}
	bz, err := hexutil.Decode(in)
	rt.Assert(err == nil && len(bz) == len(x.data) && string(bz) == string(x.data), "the data is the signed data")
	rt.Assert(sameList(types.ConvertCosmosAccessListToEth(al), x.al), "the access list is the signed one")
	ok, err := keeper.NewTxUtils(ctx).IsEthereumTx(e.Ctx, got)
	rt.Assert(err == nil && ok, "it is recognised as an Ethereum transaction")

	back, who, err := keeper.NewTxUtils(ctx).ConvertCosmosTxToEthereumTx(e.Ctx, got)
	rt.Assert(err == nil && back != nil && who != nil, "it turns back into an Ethereum transaction")
	rt.Assert(*who == Signer, "the sender stays")
	rt.Assert(back.Type() == et.Type() && back.Nonce() == x.nonce && back.Gas() == x.gas, "type, nonce and gas limit stay")
	rt.Assert(BigEq(back.Value(), x.value) && BigEq(back.GasFeeCap(), x.cap) && BigEq(back.GasTipCap(), x.tip), "value and prices stay")
	rt.Assert((back.To() == nil) == (x.to == nil) && (x.to == nil || *back.To() == *x.to), "the recipient stays")
	rt.Assert(string(back.Data()) == string(x.data) && sameList(back.AccessList(), x.al), "data and access list stay")
	v, r, s := back.RawSignatureValues()
	v0, r0, s0 := et.RawSignatureValues()
	rt.Assert(BigEq(v, v0) && BigEq(r, r0) && BigEq(s, s0), "the signature stays")
	rt.Assert(BigEq(back.ChainId(), et.ChainId()), "the chain stays")
}

// ZV_EthSigned: a transaction of the chain that presents an Ethereum signature
// is let through only if it says what the signer signed.
func ZV_EthSigned() {
	e, unit := feeToken(rt.Bound("fee tokens", 2, 3))
	chain := ethChain(e)
	signer := coretypes.LatestSignerForChainID(chain)
	x := anyEth("signed.", 2)
	chain1 := chain
	shift := 0
	if x.to != nil && len(x.al) == 0 {
		switch rt.Choice("signed chain", 4) {
		case 1:
			chain1 = big.NewInt(7)
			signer = coretypes.LatestSignerForChainID(chain1)
		case 3: // the recovery byte makes up for the difference of the chains
			if x.typ == 0 {
				shift = 1
				chain1 = new(big.Int).Add(chain, big.NewInt(1))
				signer = coretypes.LatestSignerForChainID(chain1)
			}
		case 2:
			if x.typ == 0 {
				chain1 = nil
				signer = coretypes.HomesteadSigner{}
			}
		}
	}
	sig := Sign(signer.Hash(x.tx(chain1, nil, nil, nil)))
	sig[64] += byte(2 * shift)

	acc := e.AK.NewAccountWithAddress(e.Ctx, Signer.Bytes())
	if err := acc.SetPubKey(SignerKey()); err != nil {
		panic(err)
	}
	seq := rt.U64("sequence")
	rt.Assume(seq < 1<<63)
	if err := acc.SetSequence(seq); err != nil {
		panic(err)
	}
	e.AK.SetAccount(e.Ctx, acc)

	typ := []string{"0", "1", "2"}[rt.Choice("type", 3)]
	capi := rt.Choice("cap", 2)
	memo := `{"type":` + typ + `,"gas_fee_cap":"` + gasPrices[capi] + `","gas_tip_cap":"3"}`
	sender := sdk.AccAddress(Signer.Bytes()).String()
	value := rt.Big("value", 256)
	data := rt.Bytes("data", 2)
	var al coretypes.AccessList
	if typ != "0" && rt.Choice("list", 2) == 1 {
		al = coretypes.AccessList{{Address: Addr("al"), StorageKeys: []common.Hash{Hash("key")}}}
	}
	t := &Tx{Memo: memo, Gas: rt.U64("gas"), Sigs: []signing.SignatureV2{{PubKey: SignerKey(), Sequence: rt.U64("sigseq"),
		Data: &signing.SingleSignatureData{SignMode: keeper.SignMode_SIGN_MODE_ETHEREUM, Signature: sig}}}}
	var to common.Address
	kinds := 2
	if capi == 1 && al == nil {
		kinds = 6
	}
	kind := rt.Choice("message", kinds)
	if kind == 4 {
		sender = sdk.AccAddress(Bob.Bytes()).String()
		b := e.AK.NewAccountWithAddress(e.Ctx, Bob.Bytes())
		if err := b.SetSequence(seq); err != nil {
			panic(err)
		}
		e.AK.SetAccount(e.Ctx, b)
	}
	switch kind {
	case 0, 4, 5:
		to = Addr("to")
		t.Msgs = []sdk.Msg{&types.MsgCall{Sender: sender, ContractAddr: to.Hex(), Input: hexutil.Encode(data), Value: math.NewIntFromBigInt(value), AccessList: types.ConvertEthAccessListToCosmos(al)}}
	case 1:
		t.Msgs = []sdk.Msg{&types.MsgCreate{Sender: sender, Code: hexutil.Encode(data), Value: math.NewIntFromBigInt(value), AccessList: types.ConvertEthAccessListToCosmos(al)}}
	case 2:
		t.Msgs = []sdk.Msg{&types.MsgCreate2{Sender: sender, Code: hexutil.Encode(data), Value: math.NewIntFromBigInt(value), AccessList: types.ConvertEthAccessListToCosmos(al)}}
	}
	if kind == 5 {
		t.Msgs = append(t.Msgs, t.Msgs[0])
	}
	if kind == 3 {
		t.Msgs = []sdk.Msg{&types.MsgUpdateParams{Authority: sender}}
	}
	denom := feeDenom(e)
	if kind == 0 && typ == "2" && rt.Choice("other fee", 2) == 1 {
		denom = "other"
	}
	fee := rt.Big("fee", 200)
	t.Fee = sdk.Coins{}
	if fee.Sign() > 0 {
		t.Fee = sdk.Coins{Coin(denom, fee)}
		if kind == 0 && typ == "2" && denom != "other" && rt.Choice("second fee", 2) == 1 {
			t.Fee = append(t.Fee, Coin("zzz", big.NewInt(5)))
		}
	}

	passed := false
	h := sdk.ChainAnteDecorators(authante.NewSetPubKeyDecorator(AuthAK{e.AK}), ante.NewSigVerificationDecorator(AuthAK{e.AK}, e.K, nil), &done{&passed})
	func() {
		defer func() { recover() }()
		_, err := h(e.Ctx, t, false)
		if err != nil {
			passed = false
		}
	}()
	if !passed {
		rt.Reach("refused")
		return
	}
	rt.Reach("accepted")
	rt.Assert(kind < 2, "a signature stands for a call or a creation")
	rt.Assert(chain1 != nil && BigEq(chain1, chain), "the signature is for this chain")
	rt.Assert((kind == 1) == (x.to == nil) && (kind == 1 || to == *x.to), "what is called is what was signed")
	rt.Assert(BigEq(new(big.Int).Mul(value, unit), x.value), "the value is the signed one")
	rt.Assert(string(data) == string(x.data), "the data is the signed one")
	rt.Assert(t.Gas == x.gas, "the gas limit is the signed one")
	rt.Assert(x.nonce == seq && t.Sigs[0].Sequence == seq, "the nonce is the signed one, and the account's")
	if x.typ > 0 {
		rt.Assert(sameList(al, x.al), "the access list is the signed one")
	}
	rt.Assert(len(t.Fee) <= 1 && (fee.Sign() == 0 || denom == feeDenom(e)), "the fee is in the fee token")
	most := new(big.Int).Mul(x.cap, new(big.Int).SetUint64(x.gas))
	rt.Assert(fee.Sign() == 0 || x.cap.Sign() > 0, "no fee at gas price zero")
	rt.Assert(new(big.Int).Mul(new(big.Int).Sub(fee, big.NewInt(1)), unit).Cmp(most) <= 0, "the fee is no more than the signed gas price allows")
}

type done struct{ passed *bool }

func (d *done) AnteHandle(ctx sdk.Context, _ sdk.Tx, _ bool, _ sdk.AnteHandler) (sdk.Context, error) {
	*d.passed = true
	return ctx, nil
}
