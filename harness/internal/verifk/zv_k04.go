package verifk

import (
	"math/big"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"

	rt "github.com/initia-labs/minievm/internal/verifrt"
)

// ZV_MoveCoins: minting, burning and sending coins through the bank interface
// of the EVM module moves exactly the given amounts.
func ZV_MoveCoins() {
	t := NewTokens()
	accs := [3]common.Address{Alice, Bob, Carol}
	var have [3][3]*big.Int
	var sup [3]*big.Int
	op := rt.Choice("op", 3) // mint burn send
	mask := 1 + rt.Choice("coins", 7)
	from := 1
	to := 1 + rt.Choice("to", 2)
	for i := range t.Denoms {
		for a := range accs {
			have[a][i] = big.NewInt(0)
		}
		if op != 0 {
			have[from][i] = new(big.Int).SetUint64(rt.U64("have" + t.Denoms[i][:3]))
			t.Give(accs[from], i, have[from][i])
		}
		x := big.NewInt(int64(7 + i))
		t.Give(accs[0], i, x)
		have[0][i] = x
		sup[i] = t.Supply(t.Denoms[i])
	}
	var coins sdk.Coins
	var amt [3]*big.Int
	enough := true
	for i := range t.Denoms {
		amt[i] = big.NewInt(0)
		if mask>>i&1 == 1 {
			amt[i] = new(big.Int).SetUint64(rt.U64("amt" + t.Denoms[i][:3]))
			rt.Assume(amt[i].Sign() > 0)
			coins = append(coins, Coin(t.Denoms[i], amt[i]))
		}
		if amt[i].Cmp(have[from][i]) > 0 && !(op == 1 && i == 0) {
			enough = false
		}
	}
	k := t.K.ERC20Keeper()
	var err error
	want := [3][3]*big.Int{have[0], have[1], have[2]}
	switch op {
	case 0:
		err = k.MintCoins(t.Ctx, accs[to].Bytes(), coins)
		rt.Assert((err == nil) == (mask&1 == 0), "mint succeeds exactly for tokens of the chain")
	case 1:
		err = k.BurnCoins(t.Ctx, accs[from].Bytes(), coins)
		rt.Assert((err == nil) == enough, "burn succeeds exactly when the balance covers it")
	case 2:
		err = k.SendCoins(t.Ctx, accs[from].Bytes(), accs[to].Bytes(), coins)
		rt.Assert((err == nil) == enough, "send succeeds exactly when the balance covers it")
	}
	if err != nil {
		rt.Reach("refused")
		return
	}
	rt.Reach([]string{"mint", "burn", "send"}[op])
	paid := sdk.Coins{}
	for _, f := range t.Pool.Got {
		rt.Assert(op == 1 && common.BytesToAddress(f.From) == accs[from], "community pool is paid by the burning account")
		paid = append(paid, f.Amount...)
	}
	if op == 1 && mask&1 == 1 {
		rt.Assert(len(paid) == 1 && paid[0].Denom == t.Denoms[0] && BigEq(paid[0].Amount.BigInt(), amt[0]), "a user's token is paid to the community pool once, instead of being burnt")
	} else {
		rt.Assert(len(paid) == 0, "nothing is paid to the community pool")
	}
	for i := range t.Denoms {
		switch {
		case op == 0:
			want[to][i] = new(big.Int).Add(want[to][i], amt[i])
			sup[i] = new(big.Int).Add(sup[i], amt[i])
		case op == 1 && i > 0:
			want[from][i] = new(big.Int).Sub(want[from][i], amt[i])
			sup[i] = new(big.Int).Sub(sup[i], amt[i])
		case op == 2:
			want[from][i] = new(big.Int).Sub(want[from][i], amt[i])
			want[to][i] = new(big.Int).Add(want[to][i], amt[i])
		}
		for a := range accs {
			rt.Assert(BigEq(t.Bal(accs[a], t.Denoms[i]), want[a][i]), "balance")
		}
		rt.Assert(BigEq(t.Supply(t.Denoms[i]), sup[i]), "supply")
	}
}
