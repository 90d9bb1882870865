package verifk

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/keeper"
	"github.com/initia-labs/minievm/x/evm/types"
)

// ZV_DenomContract: denominations and contracts name each other.
func ZV_DenomContract() {
	t := NewTokens()
	k := t.K
	fee, err := k.GetContractAddrByDenom(t.Ctx, FeeDenom)
	if err != nil {
		panic(err)
	}
	second, err := k.GetContractAddrByDenom(t.Ctx, SecondDenom)
	if err != nil {
		panic(err)
	}
	pick := func(name string) common.Address {
		switch rt.Choice(name+" kind", 4) {
		case 0:
			return fee
		case 1:
			return second
		case 2:
			return t.Token
		}
		return common.BytesToAddress(rt.Bytes(name, 20))
	}
	a, b := pick("a"), pick("b")
	da, err := types.ContractAddrToDenom(t.Ctx, k, a)
	rt.Assert(err == nil, "every contract has a denomination")
	db, err := types.ContractAddrToDenom(t.Ctx, k, b)
	rt.Assert(err == nil, "every contract has a denomination")
	rt.Assert((da == db) == (a == b), "different contracts have different denominations")
	back, err := types.DenomToContractAddr(t.Ctx, k, da)
	rt.Assert(err == nil && back == a, "the denomination of a contract leads back to it")
	switch a {
	case fee:
		rt.Reach("chain token")
		rt.Assert(da == FeeDenom, "denomination of the fee token")
	case second:
		rt.Assert(da == SecondDenom, "denomination of a chain token")
	default:
		rt.Reach("user token")
		rt.Assert(types.IsERC20Denom(da), "other contracts are named by their address")
	}
	h, err := types.ContractAddressFromString(AC{}, a.Hex())
	rt.Assert(err == nil && h == a, "a contract written in hex")
	h, err = types.ContractAddressFromString(AC{}, sdk.AccAddress(a.Bytes()).String())
	rt.Assert(err == nil && h == a, "a contract written as an account")
}

// ZV_DenomText: which contract a written denomination names.
func ZV_DenomText() {
	t := NewTokens()
	n := []int{1, 39, 40, 41, 42}[rt.Choice("length", 5)]
	s := rt.Bytes("text", 40)
	switch {
	case n <= 40:
		s = s[:n]
	case n == 41:
		s = append([]byte{'0'}, s...)
	case n == 42:
		s = append([]byte("0x"), s...)
	}
	hex := len(s) >= 40
	digits := s
	if n == 42 {
		digits = s[2:]
	} else if n == 41 {
		hex = false
	}
	want := make([]byte, 20)
	for i, c := range digits {
		var v byte
		switch {
		case c >= '0' && c <= '9':
			v = c - '0'
		case c >= 'a' && c <= 'f':
			v = c - 'a' + 10
		case c >= 'A' && c <= 'F':
			v = c - 'A' + 10
		default:
			hex = false
		}
		if hex {
			want[i/2] = want[i/2]<<4 | v
		}
	}
	a, err := types.DenomToContractAddr(t.Ctx, t.K, types.DENOM_PREFIX+string(s))
	rt.Assert((err == nil) == hex, "evm/ is followed by an address")
	if err == nil {
		rt.Reach("address")
		rt.Assert(a == common.BytesToAddress(want), "it names the contract at that address")
	} else {
		rt.Reach("refused")
	}
}

// ZV_TokenBirth: the first mint of an unknown denomination makes its token, later ones use it.
func ZV_TokenBirth() {
	t := NewTokens()
	k := t.K.ERC20Keeper()
	denoms := []string{FeeDenom, SecondDenom, "newa", "newb"}
	have := map[string]*big.Int{}
	contracts := map[string]common.Address{}
	for _, d := range denoms {
		have[d] = big.NewInt(0)
		if a, err := t.K.GetContractAddrByDenom(t.Ctx, d); err == nil {
			contracts[d] = a
		}
	}
	steps := rt.Bound("births", 2, 3)
	for i := 0; i < steps; i++ {
		d := denoms[rt.Choice("denom", len(denoms))]
		x := new(big.Int).SetUint64(rt.U64("amount"))
		rt.Assume(x.Sign() > 0)
		var err error
		switch rt.Choice("op", 2) {
		case 0:
			_, known := contracts[d]
			has, e := k.HasSupply(t.Ctx, d)
			rt.Assert(e == nil && has == known, "a token has a supply as soon as it exists")
			ctx, write := t.Ctx.CacheContext()
			drop := rt.Choice("dropped", 2) == 1
			err = k.MintCoins(ctx, Alice.Bytes(), sdk.Coins{Coin(d, x)})
			rt.Assert(err == nil, "any denomination can be minted")
			a, e := t.K.GetContractAddrByDenom(ctx, d)
			rt.Assert(e == nil && (!known || a == contracts[d]), "the token of a denomination does not change")
			if drop {
				break
			}
			write()
			contracts[d] = a
			have[d] = new(big.Int).Add(have[d], x)
		case 1: // burn
			err = k.BurnCoins(t.Ctx, Alice.Bytes(), sdk.Coins{Coin(d, x)})
			rt.Assert((err == nil) == (x.Cmp(have[d]) <= 0), "what was minted can be burnt")
			if err == nil {
				have[d] = new(big.Int).Sub(have[d], x)
			}
		}
	}
	seen := map[common.Address]string{}
	for _, d := range denoms {
		a, known := contracts[d]
		rt.Assert(BigEq(t.Bal(Alice, d), have[d]), "balance")
		if !known {
			rt.Reach("unknown")
			_, err := t.K.GetContractAddrByDenom(t.Ctx, d)
			rt.Assert(err != nil, "a denomination that was never minted has no token")
			continue
		}
		rt.Assert(seen[a] == "", "every denomination has its own token")
		seen[a] = d
		now, err := t.K.GetContractAddrByDenom(t.Ctx, d)
		rt.Assert(err == nil && now == a, "token of the denomination")
		back, err := t.K.GetDenomByContractAddr(t.Ctx, a)
		rt.Assert(err == nil && back == d, "denomination of the token")
		rt.Assert(BigEq(t.Supply(d), have[d]), "supply")
		is, err := t.K.ERC20s.Has(t.Ctx, a.Bytes())
		rt.Assert(err == nil && is, "tokens of the chain are registered")
	}
	rt.Reach("end")
}

// ZV_Listings: the balance and supply listings agree with the balances and supplies.
func ZV_Listings() {
	t := NewTokens()
	k := t.K.ERC20Keeper()
	accs := [2]common.Address{Alice, Bob}
	if rt.Choice("contract", 2) == 1 {
		t.Deploy(Bob, codeStop)
	}
	amount := func(name string) *big.Int { return new(big.Int).SetUint64(rt.U64(name)) }
	has := 1 + rt.Choice("held", 7)
	var have [2][3]*big.Int
	for i := range t.Denoms {
		have[0][i], have[1][i] = big.NewInt(0), big.NewInt(0)
		if has>>i&1 == 1 {
			have[0][i] = amount("have")
			rt.Assume(have[0][i].Sign() > 0)
			t.Give(Alice, i, have[0][i])
		}
	}
	i := rt.Choice("moved", 3)
	x := amount("amount")
	rt.Assume(x.Cmp(have[0][i]) <= 0)
	switch rt.Choice("by", 3) {
	case 0: // through the bank
		rt.Assert(k.SendCoins(t.Ctx, Alice.Bytes(), Bob.Bytes(), sdk.Coins{Coin(t.Denoms[i], x)}) == nil, "send")
	case 1: // through the ERC20 contract
		a, err := types.DenomToContractAddr(t.Ctx, t.K, t.Denoms[i])
		if err != nil {
			panic(err)
		}
		in, err := k.GetERC20ABI().Pack("transfer", Bob, x)
		if err != nil {
			panic(err)
		}
		_, err = keeper.NewMsgServerImpl(t.K).Call(t.Ctx, &types.MsgCall{Sender: sdk.AccAddress(Alice.Bytes()).String(), ContractAddr: a.Hex(), Input: hexutil.Encode(in), Value: math.ZeroInt()})
		rt.Assert(err == nil, "transfer")
	case 2: // minted, or burnt
		x = new(big.Int)
		if i > 0 && rt.Choice("burn", 2) == 1 {
			rt.Assert(k.BurnCoins(t.Ctx, Alice.Bytes(), sdk.Coins{Coin(t.Denoms[i], have[0][i])}) == nil || have[0][i].Sign() == 0, "burn")
			have[0][i] = x
		} else {
			y := amount("mint")
			rt.Assume(y.Sign() > 0)
			t.Give(Bob, i, y)
			have[1][i] = y
		}
	}
	have[0][i] = new(big.Int).Sub(have[0][i], x)
	have[1][i] = new(big.Int).Add(have[1][i], x)
	for n, a := range accs {
		got := map[string]*big.Int{}
		err := k.IterateAccountBalances(t.Ctx, a.Bytes(), func(c sdk.Coin) (bool, error) {
			rt.Assert(got[c.Denom] == nil, "every token is listed once")
			got[c.Denom] = c.Amount.BigInt()
			return false, nil
		})
		rt.Assert(err == nil, "balances can be listed")
		page, _, err := k.GetPaginatedBalances(t.Ctx, nil, a.Bytes())
		rt.Assert(err == nil, "balances can be listed by page")
		for j, d := range t.Denoms {
			rt.Assert(BigEq(t.Bal(a, d), have[n][j]), "balance")
			if g := got[d]; g == nil {
				rt.Assert(have[n][j].Sign() == 0, "a token that is held is listed")
			} else {
				rt.Reach("listed")
				rt.Assert(BigEq(g, have[n][j]), "amount of a listed token")
			}
			found := false
			for q, c := range page {
				rt.Assert(q == 0 || page[q-1].Denom < c.Denom, "the page is sorted")
				if c.Denom == d {
					found = true
					rt.Assert(BigEq(c.Amount.BigInt(), have[n][j]), "amount of a token on the page")
				}
			}
			rt.Assert(found || have[n][j].Sign() == 0, "a token that is held is on the page")
		}
	}
	got := map[string]*big.Int{}
	err := k.IterateSupply(t.Ctx, func(c sdk.Coin) (bool, error) {
		rt.Assert(got[c.Denom] == nil, "every supply is listed once")
		got[c.Denom] = c.Amount.BigInt()
		return false, nil
	})
	rt.Assert(err == nil, "supplies can be listed")
	page, _, err := k.GetPaginatedSupply(t.Ctx, nil)
	rt.Assert(err == nil && len(page) == 3 && len(got) == 3, "every token is on the supply page")
	for j, d := range t.Denoms {
		want := new(big.Int).Add(have[0][j], have[1][j])
		rt.Assert(got[d] != nil && BigEq(got[d], want) && BigEq(t.Supply(d), want), "the supply is the sum of the balances")
		for _, c := range page {
			rt.Assert(c.Denom != d || BigEq(c.Amount.BigInt(), want), "supply on the page")
		}
	}
	rt.Reach("end")
}
