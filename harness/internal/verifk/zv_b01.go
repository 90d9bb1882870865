package verifk

import (
	"math/big"

	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"

	rt "github.com/initia-labs/minievm/internal/verifrt"
	bankkeeper "github.com/initia-labs/minievm/x/bank/keeper"
)

// ZV_BankSend: MsgSend moves the stated coins.
func ZV_BankSend() { bankSend(false) }

// ZV_BankRules: MsgSend obeys the send settings and the blocked addresses.
func ZV_BankRules() { bankSend(true) }

func bankSend(rules bool) {
	t := NewTokens()
	to := []common.Address{Bob, Alice, common.BytesToAddress(ModAddr("fee_collector"))}[rt.Choice("recipient", 3)]
	// an address that may not receive
	blocked := Carol
	if rules && rt.Choice("blocked", 2) == 1 {
		blocked = to
	}
	b := t.RealBank(map[string]bool{sdk.AccAddress(blocked.Bytes()).String(): true})
	def := !rules || rt.Choice("sending by default", 2) == 0
	p := banktypes.DefaultParams()
	p.DefaultSendEnabled = def
	if err := b.SetParams(t.Ctx, p); err != nil {
		panic(err)
	}
	var have, want [3]*big.Int
	enabled := [3]bool{def, def, def}
	amt := sdk.Coins{}
	n := rt.Bound("tokens", 2, 3)
	for i := 0; i < n; i++ {
		ni := string(rune('0' + i))
		have[i] = new(big.Int).SetUint64(rt.U64("have" + ni))
		want[i] = new(big.Int).SetUint64(rt.U64("want" + ni))
		sent := 0
		if !rules {
			sent = rt.Choice("sent"+ni, 3)
		} else {
			sent = 1
			// enough of each, so that only the rules matter
			rt.Assume(want[i].Sign() > 0 && want[i].Cmp(have[i]) <= 0)
			if i > 0 {
				sent = rt.Choice("sent"+ni, 2)
			}
		}
		t.Give(Alice, i, have[i])
		switch sent {
		case 2:
			want[i] = big.NewInt(-1)
			fallthrough
		case 1:
			amt = append(amt, Coin(t.Denoms[i], want[i]))
		default:
			want[i] = new(big.Int)
		}
	}
	set := 0
	if rules {
		set = rt.Choice("setting", 2*n+1)
	}
	if set > 0 {
		i, on := (set-1)/2, set%2 == 0
		b.SetSendEnabled(t.Ctx, t.Denoms[i], on)
		enabled[i] = on
	}
	ok := len(amt) > 0 && to != blocked
	j := 0
	for i := 0; i < n; i++ {
		if j < len(amt) && amt[j].Denom == t.Denoms[i] {
			ok = ok && want[i].Sign() > 0 && enabled[i] && want[i].Cmp(have[i]) <= 0
			j++
		}
	}
	var supply [3]*big.Int
	for i := 0; i < n; i++ {
		supply[i] = t.Supply(t.Denoms[i])
	}
	ctx, write := t.Ctx.CacheContext()
	_, err := bankkeeper.NewMsgServerImpl(b).Send(ctx, &banktypes.MsgSend{FromAddress: sdk.AccAddress(Alice.Bytes()).String(), ToAddress: sdk.AccAddress(to.Bytes()).String(), Amount: amt})
	if err == nil {
		write()
	}
	rt.Assert((err == nil) == ok, "sending works exactly when the coins are valid, enabled, held and the recipient may receive")
	if ok {
		rt.Reach("sent")
		rt.Assert(t.AK.HasAccount(t.Ctx, to.Bytes()), "the recipient has an account")
	} else {
		rt.Reach("refused")
	}
	for i := 0; i < n; i++ {
		d := t.Denoms[i]
		a, r := have[i], new(big.Int)
		if to == Alice {
			r = a
		} else if ok {
			a = new(big.Int).Sub(a, want[i])
			r = want[i]
		}
		rt.Assert(BigEq(b.GetBalance(t.Ctx, Alice.Bytes(), d).Amount.BigInt(), a), "balance of the sender")
		rt.Assert(BigEq(b.GetBalance(t.Ctx, to.Bytes(), d).Amount.BigInt(), r), "balance of the recipient")
		rt.Assert(BigEq(b.GetSupply(t.Ctx, d).Amount.BigInt(), supply[i]), "supply")
	}
}

// ZV_BankModules: module accounts receive, pay, mint and burn as their permissions say.
func ZV_BankModules() {
	t := NewTokens()
	b := t.RealBank(map[string]bool{sdk.AccAddress(Carol.Bytes()).String(): true})
	mods := []string{"fee_collector", "minter", "burner", "staker", "all", "nobody"}
	ops := []string{"pay", "collect", "delegate", "undelegate", "between modules", "mint", "burn"}
	op := ops[rt.Choice("operation", len(ops))]
	mod := mods[rt.Choice("module", len(mods))]
	i := rt.Choice("token", 2)
	d := t.Denoms[i]
	user := []common.Address{Bob, Carol}[rt.Choice("user", 2)]
	m := common.BytesToAddress(ModAddr(mod))
	have := new(big.Int).SetUint64(rt.U64("have"))
	other := new(big.Int).SetUint64(rt.U64("other"))
	x := new(big.Int).SetUint64(rt.U64("amount"))
	rt.Assume(x.Sign() > 0)

	from, to, perm, may := m, user, "", true
	switch op {
	case "pay":
		may = user != Carol
	case "collect":
		from, to = user, m
	case "delegate":
		from, to, perm = user, m, "staking"
	case "undelegate":
		perm = "staking"
	case "between modules":
		to = common.BytesToAddress(ModAddr("staker"))
	case "mint":
		perm, may = "minter", i > 0
	case "burn":
		perm = "burner"
	}
	_, has := Modules[mod]
	if perm != "" {
		has = false
		for _, p := range Modules[mod] {
			has = has || p == perm
		}
	}
	t.Give(from, i, have)
	if from != to {
		t.Give(to, i, other)
	} else {
		other = have
	}
	sup := t.Supply(d)
	amt := sdk.NewCoins(Coin(d, x))
	ok := has && may && (op == "mint" || x.Cmp(have) <= 0 || op == "burn" && i == 0)

	ctx, write := t.Ctx.CacheContext()
	var err error
	func() {
		defer func() {
			if recover() != nil {
				rt.Assert(!has, "only a missing module or permission panics")
				err = banktypes.ErrSendDisabled
			}
		}()
		switch op {
		case "pay":
			err = b.SendCoinsFromModuleToAccount(ctx, mod, user.Bytes(), amt)
		case "collect":
			err = b.SendCoinsFromAccountToModule(ctx, user.Bytes(), mod, amt)
		case "delegate":
			err = b.DelegateCoinsFromAccountToModule(ctx, user.Bytes(), mod, amt)
		case "undelegate":
			err = b.UndelegateCoinsFromModuleToAccount(ctx, mod, user.Bytes(), amt)
		case "between modules":
			err = b.SendCoinsFromModuleToModule(ctx, mod, "staker", amt)
		case "mint":
			err = b.MintCoins(ctx, mod, amt)
		case "burn":
			err = b.BurnCoins(ctx, mod, amt)
		}
	}()
	if err == nil {
		write()
	}
	rt.Assert((err == nil) == ok, "it works exactly when the module exists and is permitted, the coins are there and the recipient may receive")
	zero := new(big.Int)
	dFrom, dTo, dSup := zero, zero, zero
	neg := new(big.Int).Neg(x)
	paid := 0
	switch {
	case !ok:
		rt.Reach("refused")
	case op == "mint":
		rt.Reach(op)
		dFrom, dSup = x, x
	case op == "burn" && i == 0:
		rt.Reach("burn a user's token")
		paid = 1
	case op == "burn":
		rt.Reach(op)
		dFrom, dSup = neg, neg
	default:
		rt.Reach(op)
		if from != to {
			dFrom, dTo = neg, x
		}
	}
	if from != to {
		rt.Assert(BigEq(b.GetBalance(t.Ctx, to.Bytes(), d).Amount.BigInt(), new(big.Int).Add(other, dTo)), "balance of the other account")
	}
	rt.Assert(BigEq(b.GetBalance(t.Ctx, from.Bytes(), d).Amount.BigInt(), new(big.Int).Add(have, dFrom)), "balance of the account that pays, mints or burns")
	rt.Assert(BigEq(b.GetSupply(t.Ctx, d).Amount.BigInt(), new(big.Int).Add(sup, dSup)), "supply")
	rt.Assert(len(t.Pool.Got) == paid, "the community pool gets burnt user tokens only")
	if paid > 0 {
		g := t.Pool.Got[0]
		rt.Assert(common.BytesToAddress(g.From) == m && len(g.Amount) == 1 && BigEq(g.Amount[0].Amount.BigInt(), x), "the pool gets what was burnt")
	}
}

// ZV_BankAdmin: settings change by the authority only, and exactly as asked.
func ZV_BankAdmin() {
	e := New()
	e.SetParams()
	b := e.RealBank(nil)
	who := Authority
	if k := rt.Choice("authority", 3); k == 1 {
		who = sdk.AccAddress(rt.Bytes("who", 20))
		rt.Assume(string(who) != string(Authority))
	}
	right := string(who) == string(Authority)
	names := []string{"umin", "zbar", "foo"}
	def := rt.Choice("default", 2) == 1
	p := banktypes.DefaultParams()
	p.DefaultSendEnabled = def
	if err := b.SetParams(e.Ctx, p); err != nil {
		panic(err)
	}
	var set [3]int
	for i := range names[:2] {
		if set[i] = rt.Choice("set "+names[i], 3); set[i] > 0 {
			b.SetSendEnabled(e.Ctx, names[i], set[i] == 2)
		}
	}
	srv := bankkeeper.NewMsgServerImpl(b)
	ctx, write := e.Ctx.CacheContext()
	var err error
	wdef, want, ok := def, set, right
	switch rt.Choice("message", 2) {
	case 0:
		wdef = rt.Choice("new default", 2) == 1
		p.DefaultSendEnabled = wdef
		_, err = srv.UpdateParams(ctx, &banktypes.MsgUpdateParams{Authority: who.String(), Params: p})
	case 1:
		msg := &banktypes.MsgSetSendEnabled{Authority: who.String()}
		n := rt.Choice("entries", 3)
		seen := -1
		for j := 0; j < n; j++ {
			nj := string(rune('0' + j))
			i := rt.Choice("entry"+nj, 3)
			on := rt.Choice("enabled"+nj, 2)
			msg.SendEnabled = append(msg.SendEnabled, &banktypes.SendEnabled{Denom: names[i], Enabled: on == 1})
			want[i] = 1 + on
			ok = ok && i != seen
			seen = i
		}
		if k := rt.Choice("use default", 5); k > 0 && k < 4 {
			msg.UseDefaultFor = []string{names[k-1]}
			want[k-1] = 0
		} else if k == 4 {
			msg.UseDefaultFor = []string{"!"}
			ok = false
		}
		_, err = srv.SetSendEnabled(ctx, msg)
	}
	if err == nil {
		write()
	}
	rt.Assert((err == nil) == ok, "the settings change exactly for valid messages of the authority")
	if !ok {
		rt.Reach("refused")
		want, wdef = set, def
	} else {
		rt.Reach("set")
	}
	rt.Assert(b.GetParams(e.Ctx).DefaultSendEnabled == wdef, "the default setting")
	for i, n := range names {
		on := wdef
		if want[i] > 0 {
			on = want[i] == 2
		}
		rt.Assert(b.IsSendEnabledDenom(e.Ctx, n) == on, "the setting of each denomination")
		_, has := b.GetSendEnabledEntry(e.Ctx, n)
		rt.Assert(has == (want[i] > 0), "an entry exactly for denominations with a setting of their own")
	}
}
