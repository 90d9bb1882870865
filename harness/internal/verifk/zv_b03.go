package verifk

import (
	"math/big"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"

	ve "github.com/initia-labs/minievm/internal/verifenv"
	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/types"
)

// pages follows a listing page by page and returns what is listed.
func pages(limit uint64, count, rev bool, get func(*query.PageRequest) (sdk.Coins, *query.PageResponse, error)) map[string]*big.Int {
	got := map[string]*big.Int{}
	req := &query.PageRequest{Limit: limit, CountTotal: count, Reverse: rev}
	for n := 0; ; n++ {
		cs, res, err := get(req)
		rt.Assert(err == nil && res != nil && n < 5, "a page is answered")
		rt.Assert(uint64(len(cs)) <= limit, "a page has at most as many coins as asked for")
		for _, c := range cs {
			rt.Assert(got[c.Denom] == nil, "every token is listed on one page only")
			got[c.Denom] = c.Amount.BigInt()
		}
		if count && n == 0 {
			rt.Assert(int(res.Total) >= len(cs), "total of a listing")
		}
		if res.NextKey == nil {
			return got
		}
		rt.Reach("next page")
		req = &query.PageRequest{Limit: limit, Key: res.NextKey, Reverse: rev}
	}
}

// ZV_BankQueries: the queries of the bank module answer the state.
func ZV_BankQueries() {
	t := NewTokens()
	b := t.RealBank(nil)
	has := 1 + rt.Choice("held", 3)*3 // the first, the first and the third (4), all
	if has == 4 {
		has = 5
	}
	accs := [2]common.Address{Alice, Bob}
	var have [2][3]*big.Int
	for i := range t.Denoms {
		have[0][i], have[1][i] = new(big.Int), new(big.Int)
		if has>>i&1 == 1 {
			have[0][i] = new(big.Int).SetUint64(rt.U64("have"))
			rt.Assume(have[0][i].Sign() > 0)
			t.Give(Alice, i, have[0][i])
		}
	}
	if has == 5 { // some of the third for the other account
		have[1][2] = new(big.Int).SetUint64(rt.U64("other"))
		rt.Assume(have[1][2].Sign() > 0)
		t.Give(Bob, 2, have[1][2])
	}
	ctx, _ := t.Ctx.CacheContext()
	n := rt.Choice("account", 2)
	who := sdk.AccAddress(accs[n].Bytes()).String()
	switch rt.Choice("query", 4) {
	case 0: // one balance
		i := rt.Choice("denom", 4)
		d, want := "nothing", new(big.Int)
		if i < 3 {
			d, want = t.Denoms[i], have[n][i]
		}
		r, err := b.Balance(ctx, &banktypes.QueryBalanceRequest{Address: who, Denom: d})
		rt.Assert(err == nil && r.Balance.Denom == d && BigEq(r.Balance.Amount.BigInt(), want), "the balance query answers the balance")
		s, err := b.SpendableBalanceByDenom(ctx, &banktypes.QuerySpendableBalanceByDenomRequest{Address: who, Denom: d})
		rt.Assert(err == nil && s.Balance.Denom == d && BigEq(s.Balance.Amount.BigInt(), want), "all of a balance is spendable")
		u, err := b.SupplyOf(ctx, &banktypes.QuerySupplyOfRequest{Denom: d})
		sum := want
		if i < 3 {
			sum = new(big.Int).Add(have[0][i], have[1][i])
		}
		rt.Assert(err == nil && u.Amount.Denom == d && BigEq(u.Amount.Amount.BigInt(), sum), "the supply query answers the supply")
		rt.Reach("one")
	case 1, 2: // listings by page
		limit := uint64(1 + rt.Choice("limit", 3))
		rev := rt.Choice("reverse", 2) == 1
		got := pages(limit, true, rev, func(p *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
			if rev { // either query
				r, err := b.SpendableBalances(ctx, &banktypes.QuerySpendableBalancesRequest{Address: who, Pagination: p})
				if err != nil {
					return nil, nil, err
				}
				return r.Balances, r.Pagination, nil
			}
			r, err := b.AllBalances(ctx, &banktypes.QueryAllBalancesRequest{Address: who, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.Balances, r.Pagination, nil
		})
		sup := pages(limit, false, rev, func(p *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
			r, err := b.TotalSupply(ctx, &banktypes.QueryTotalSupplyRequest{Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return r.Supply, r.Pagination, nil
		})
		for i, d := range t.Denoms {
			if g := got[d]; g == nil {
				rt.Assert(have[n][i].Sign() == 0, "a token that is held is on some page")
			} else {
				rt.Assert(BigEq(g, have[n][i]), "amount on a page")
			}
			all := new(big.Int).Add(have[0][i], have[1][i])
			if g := sup[d]; g == nil {
				rt.Assert(all.Sign() == 0, "a token with a supply is on some page")
			} else {
				rt.Assert(BigEq(g, all), "supply on a page")
			}
		}
		rt.Assert(len(got) <= 3, "only tokens of the chain are listed")
		rt.Reach("pages")
	case 3: // what is asked for wrongly is refused
		bad := [3]string{"", "x", who + "x"}[rt.Choice("bad", 3)]
		_, err := b.Balance(ctx, &banktypes.QueryBalanceRequest{Address: bad, Denom: FeeDenom})
		_, err2 := b.AllBalances(ctx, &banktypes.QueryAllBalancesRequest{Address: bad})
		_, err3 := b.SpendableBalances(ctx, &banktypes.QuerySpendableBalancesRequest{Address: bad})
		rt.Assert(err != nil && err2 != nil && err3 != nil, "there is no balance without an account")
		_, err = b.Balance(ctx, &banktypes.QueryBalanceRequest{Address: who})
		_, err2 = b.SupplyOf(ctx, &banktypes.QuerySupplyOfRequest{})
		rt.Assert(err != nil && err2 != nil, "there is no balance without a denomination")
		rt.Reach("refused")
	}
	rt.Assert(ctx.MultiStore().(*ve.MS).Written() == 0, "a query changes nothing")
}

// ZV_BankSettings: queries for settings and metadata.
func ZV_BankSettings() {
	t := NewTokens()
	b := t.RealBank(nil)
	kind := rt.Choice("query", 3)
	set, on := 0, [3]bool{}
	for i, d := range t.Denoms {
		if kind == 2 {
			break
		}
		if rt.Choice("set", 2) == 1 {
			on[i] = rt.Bool("on")
			b.SetSendEnabled(t.Ctx, d, on[i])
			set |= 1 << i
		}
	}
	p := banktypes.DefaultParams()
	p.DefaultSendEnabled = rt.Bool("default")
	if err := b.SetParams(t.Ctx, p); err != nil {
		panic(err)
	}
	own := kind == 2 && rt.Choice("metadata", 2) == 1
	meta := banktypes.Metadata{Base: FeeDenom, Display: FeeDenom, Name: "n", Symbol: "s", DenomUnits: []*banktypes.DenomUnit{{Denom: FeeDenom}}}
	if own {
		b.SetDenomMetaData(t.Ctx, meta)
	}
	ctx, _ := t.Ctx.CacheContext()
	if kind == 0 {
		var asked []string
		i := rt.Choice("asked", 4)
		for j, d := range t.Denoms {
			if i == 3 || i == j {
				asked = append(asked, d)
			}
		}
		r, err := b.SendEnabled(ctx, &banktypes.QuerySendEnabledRequest{Denoms: asked})
		rt.Assert(err == nil, "send settings")
		n := 0
		for j, d := range t.Denoms {
			if (i == 3 || i == j) && set>>j&1 == 1 {
				rt.Assert(n < len(r.SendEnabled) && r.SendEnabled[n].Denom == d && r.SendEnabled[n].Enabled == on[j], "the setting of each denomination that was asked for")
				n++
			}
		}
		rt.Assert(len(r.SendEnabled) == n, "settings of the denominations asked for only")
		rt.Reach("asked")
		return
	} else if kind == 1 {
		seen := map[string]bool{}
		limit := uint64(1 + rt.Choice("limit", 2))
		req := &query.PageRequest{Limit: limit}
		for n := 0; ; n++ {
			r, err := b.SendEnabled(ctx, &banktypes.QuerySendEnabledRequest{Pagination: req})
			rt.Assert(err == nil && n < 5 && uint64(len(r.SendEnabled)) <= limit, "a page of send settings")
			for _, s := range r.SendEnabled {
				rt.Assert(!seen[s.Denom], "each setting once")
				seen[s.Denom] = true
				for j, d := range t.Denoms {
					rt.Assert(d != s.Denom || set>>j&1 == 1 && s.Enabled == on[j], "the setting of a listed denomination")
				}
			}
			if r.Pagination.NextKey == nil {
				break
			}
			req = &query.PageRequest{Limit: limit, Key: r.Pagination.NextKey}
		}
		for j, d := range t.Denoms {
			rt.Assert(seen[d] == (set>>j&1 == 1), "every setting is listed")
		}
		rt.Reach("listed")
		return
	}
	r, err := b.Params(ctx, &banktypes.QueryParamsRequest{})
	rt.Assert(err == nil && r.Params.DefaultSendEnabled == p.DefaultSendEnabled, "the parameters")
	i := rt.Choice("denom", 4)
	d := "nothing"
	if i < 3 {
		d = t.Denoms[i]
	}
	m, err := b.DenomMetadata(ctx, &banktypes.QueryDenomMetadataRequest{Denom: d})
	m2, err2 := b.DenomMetadataByQueryString(ctx, &banktypes.QueryDenomMetadataByQueryStringRequest{Denom: d})
	rt.Assert((err == nil) == (i < 3), "every token has metadata, and nothing else has")
	rt.Assert((err == nil) == (err2 == nil), "both metadata queries answer for the same denominations")
	if err != nil {
		return
	}
	rt.Assert(m.Metadata.Base == d && m.Metadata.Name == m2.Metadata.Name && m.Metadata.Symbol == m2.Metadata.Symbol && m2.Metadata.Base == d, "both metadata queries answer the same")
	if d == FeeDenom && own {
		rt.Assert(m.Metadata.Name == "n" && m.Metadata.Symbol == "s", "the metadata that was set")
		rt.Reach("set")
	} else {
		a, err := types.DenomToContractAddr(t.Ctx, t.K, d)
		rt.Assert(err == nil && a != common.Address{} && len(m.Metadata.DenomUnits) > 0 && m.Metadata.DenomUnits[0].Denom == d && m.Metadata.DenomUnits[0].Exponent == 0, "units of a token")
		want := d
		if i == 0 {
			want = "foo"
		}
		rt.Assert(m.Metadata.Name == want && m.Metadata.Symbol == want, "name and symbol are those of the contract")
		rt.Reach("token")
	}
	rt.Assert(ctx.MultiStore().(*ve.MS).Written() == 0, "a query changes nothing")
}
