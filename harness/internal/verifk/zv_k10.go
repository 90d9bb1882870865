package verifk

import (
	"math/big"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"

	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/keeper"
	"github.com/initia-labs/minievm/x/evm/types"
)

// text is a string of n symbolic printable characters.
func text(name string, n int) string {
	b := rt.Bytes(name, n)
	for _, c := range b {
		rt.Assume(c >= ' ' && c <= '~')
	}
	return string(b)
}

func (e *Env) nfts() *keeper.ERC721Keeper { return e.K.ERC721Keeper().(*keeper.ERC721Keeper) }

// ZV_NFTs: classes and tokens through the keeper of collections.
func ZV_NFTs() {
	ids := [2]string{"7", "12"}
	cls := [2]string{"punks", "ibc/0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF"}
	// two classes; a token of the second is Bob's
	type nftEnv struct {
		*Env
		at [2]common.Address
	}
	init := NewInit()
	ne := rt.Once("verifk.ZV_NFTs", func() any {
		ne := &nftEnv{Env: init}
		k := ne.K.ERC721Keeper()
		for c := range cls {
			must(k.CreateOrUpdateClass(ne.Ctx, cls[c], "first", ""))
			a, err := types.ContractAddressFromClassId(ne.Ctx, ne.K, cls[c])
			must(err)
			ne.at[c] = a
		}
		must(k.Mints(ne.Ctx, Bob.Bytes(), cls[1], ids[:1], []string{"token"}, []string{""}))
		return ne
	}).(*nftEnv)
	e, at := ne.Env, ne.at
	k := e.K.ERC721Keeper()
	far := append(append(sdk.AccAddress{}, make([]byte, 12)...), Carol.Bytes()...)
	far[0] = 9
	accs := [3]sdk.AccAddress{Alice.Bytes(), Bob.Bytes(), far}
	evm := [3]common.Address{Alice, Bob, Carol}
	rt.Assert(at[0] != at[1] && at[0] != common.Address{} && at[1] != common.Address{}, "classes have different contracts")
	uris := [2]string{"first", "first"}
	owner := [2][2]int{{-1, -1}, {1, -1}} // account of each token, -1: none
	uri := [2][2]string{{"", ""}, {"token", ""}}
	mint := func(c, i, to int) {
		uri[c][i] = text("uri", 3)
		owner[c][i] = to
		must(k.Mints(e.Ctx, accs[to], cls[c], ids[i:i+1], []string{uri[c][i]}, []string{""}))
	}
	mint(0, 0, 0)

	// what is done: to one or both tokens of a class
	what := rt.Choice("what", 4)
	c := rt.Choice("class", 2)
	list := []int{0}
	if c == 0 && what < 3 {
		if n := rt.Choice("second", 3); n > 0 {
			mint(0, 1, 2*n-2)
		}
		list = [3][]int{{0}, {1}, {0, 1}}[rt.Choice("tokens", 3)]
	} else if what == 0 {
		list = [3][]int{{0}, {1}, {1, 0}}[rt.Choice("tokens", 3)]
	}
	var names, texts, none []string
	for _, i := range list {
		names = append(names, ids[i])
		texts = append(texts, text("new uri", 3))
		none = append(none, "")
	}
	by, to := 0, 0
	if what == 1 || what == 2 {
		by = rt.Choice("by", 3)
	}
	if what == 0 || what == 1 {
		to = rt.Choice("to", 3)
	}
	ctx, write := e.Ctx.CacheContext()
	ok := true
	var err error
	switch what {
	case 0:
		for _, i := range list {
			ok = ok && owner[c][i] < 0
		}
		err = k.Mints(ctx, accs[to], cls[c], names, texts, none)
		rt.Assert((err == nil) == ok, "tokens are made exactly when there are none of that name")
		if ok {
			for j, i := range list {
				owner[c][i], uri[c][i] = to, texts[j]
			}
			rt.Reach("minted")
		}
	case 1:
		for _, i := range list {
			ok = ok && owner[c][i] == by
		}
		err = k.Transfers(ctx, accs[by], accs[to], cls[c], names)
		rt.Assert((err == nil) == ok, "tokens move exactly when the sender owns them all")
		if ok {
			for _, i := range list {
				owner[c][i] = to
			}
			rt.Reach("moved")
		}
	case 2:
		for _, i := range list {
			ok = ok && owner[c][i] == by
		}
		err = k.Burns(ctx, accs[by], cls[c], names)
		rt.Assert((err == nil) == ok, "tokens are burnt exactly when the owner burns them all")
		if ok {
			for _, i := range list {
				owner[c][i] = -1
			}
			rt.Reach("burnt")
		}
	case 3: // the class again
		uris[c] = text("next uri", 4*rt.Choice("long", 2))
		rt.Assert(k.CreateOrUpdateClass(ctx, cls[c], uris[c], "") == nil, "a class can be updated")
		rt.Reach("updated")
	}
	if ok {
		write()
	} else {
		rt.Reach("refused")
	}

	for d := range cls {
		a, err := types.ContractAddressFromClassId(e.Ctx, e.K, cls[d])
		rt.Assert(err == nil && a == at[d], "a class keeps its contract")
		back, err := types.ClassIdFromCollectionAddress(e.Ctx, e.K, at[d])
		rt.Assert(err == nil && back == cls[d], "the contract leads back to the class")
		name, u, _, err := k.GetClassInfo(e.Ctx, cls[d])
		rt.Assert(err == nil && name == cls[d] && u == uris[d], "name and URI of a class")
		var n [3]int64
		for i := range ids {
			got, err := e.nfts().OwnerOf(e.Ctx, ids[i], cls[d])
			if o := owner[d][i]; o < 0 {
				rt.Assert(err != nil, "a token that was not made or was burnt has no owner")
			} else {
				n[o]++
				rt.Assert(err == nil && got == evm[o], "a token belongs to its last receiver")
				us, descs, err := k.GetTokenInfos(e.Ctx, cls[d], ids[i:i+1])
				rt.Assert(err == nil && len(us) == 1 && len(descs) == 1 && us[0] == uri[d][i], "a token keeps its URI")
			}
		}
		for o := range accs {
			b, err := e.nfts().BalanceOf(e.Ctx, accs[o], cls[d])
			rt.Assert(err == nil && b.BigInt().Cmp(big.NewInt(n[o])) == 0, "an account has as many tokens of a class as it owns")
		}
	}
	rt.Reach("end")
}

// ZV_NFTNames: names of classes and tokens.
func ZV_NFTNames() {
	e := NewInit()
	k := e.K.ERC721Keeper()
	must(k.CreateOrUpdateClass(e.Ctx, "punks", "", ""))
	a, err := e.K.GetContractAddrByClassId(e.Ctx, "punks")
	must(err)
	must(k.Mints(e.Ctx, Alice.Bytes(), "punks", []string{"7"}, []string{"u"}, []string{""}))
	switch rt.Choice("what", 5) {
	case 4: // numbers are decimal
		must(k.Mints(e.Ctx, Alice.Bytes(), "punks", []string{"010"}, []string{"u"}, []string{""}))
		o, err := e.nfts().OwnerOf(e.Ctx, "10", "punks")
		rt.Assert(err == nil && o == Alice, "the numbers of tokens are decimal")
		rt.Reach("decimal")
	case 0: // the class of the contract itself
		name := "evm/" + a.Hex()[2:]
		if rt.Choice("prefixed", 2) == 1 {
			name = "evm/" + a.Hex()
		}
		o, err := e.nfts().OwnerOf(e.Ctx, "7", name)
		rt.Assert(err == nil && o == Alice, "a collection can be named by its contract")
		must(k.Transfers(e.Ctx, Alice.Bytes(), Bob.Bytes(), name, []string{"7"}))
		o, err = e.nfts().OwnerOf(e.Ctx, "7", "punks")
		rt.Assert(err == nil && o == Bob, "it is the same collection")
		rt.Reach("contract")
	case 1: // nothing by that name
		name := [4]string{"punk", "evm/", "evm/12", "ibc/punks"}[rt.Choice("name", 4)]
		_, _, _, err := k.GetClassInfo(e.Ctx, name)
		_, _, err2 := k.GetTokenInfos(e.Ctx, name, []string{"7"})
		rt.Assert(err != nil && err2 != nil, "an unknown class has no infos")
		err = k.Transfers(e.Ctx, Alice.Bytes(), Bob.Bytes(), name, []string{"7"})
		err2 = k.Burns(e.Ctx, Alice.Bytes(), name, []string{"7"})
		err3 := k.Mints(e.Ctx, Alice.Bytes(), name, []string{"8"}, []string{""}, []string{""})
		rt.Assert(err != nil && err2 != nil && err3 != nil, "an unknown class has no tokens")
		rt.Reach("unknown class")
	case 2: // token names that are no numbers
		id := [7]string{"", "x", "7x", "0x7", "1_0", "-7", "115792089237316195423570985008687907853269984665640564039457584007913129639943"}[rt.Choice("id", 7)]
		_, _, err := k.GetTokenInfos(e.Ctx, "punks", []string{id})
		err2 := k.Transfers(e.Ctx, Alice.Bytes(), Bob.Bytes(), "punks", []string{id})
		err3 := k.Burns(e.Ctx, Alice.Bytes(), "punks", []string{id})
		err4 := k.Mints(e.Ctx, Alice.Bytes(), "punks", []string{id}, []string{""}, []string{""})
		rt.Assert(err != nil && err2 != nil && err3 != nil && err4 != nil, "tokens of a class of this chain have numbers")
		rt.Reach("unknown token")
	case 3: // the collection of somebody else
		must(e.K.ERC721ContractAddrsByClassId.Remove(e.Ctx, "punks"))
		must(e.K.ERC721ClassIdsByContractAddr.Remove(e.Ctx, a.Bytes()))
		in, err := k.GetERC721ABI().Pack("transferOwnership", Alice)
		must(err)
		_, _, err = e.K.EVMCall(e.Ctx, types.StdAddress, a, in, nil, nil)
		must(err)
		name, err := types.ClassIdFromCollectionAddress(e.Ctx, e.K, a)
		rt.Assert(err == nil && name == "evm/"+a.Hex()[2:], "a contract of a user is a class by its address")
		err = k.Mints(e.Ctx, Alice.Bytes(), name, []string{"8"}, []string{""}, []string{""})
		rt.Assert(err != nil, "the chain makes no tokens of a user's collection")
		_, u, _, err := k.GetClassInfo(e.Ctx, name)
		rt.Assert(err == nil && u == "", "a user's collection has no URI")
		rt.Reach("user")
	}
}
