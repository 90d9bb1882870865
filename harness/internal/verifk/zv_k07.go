package verifk

import (
	"bytes"
	"fmt"

	"cosmossdk.io/collections"
	"cosmossdk.io/math"

	ve "github.com/initia-labs/minievm/internal/verifenv"
	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/types"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// roundTrip exports the state and imports it elsewhere.
func roundTrip(e *Env) {
	gs := e.K.ExportGenesis(e.Ctx)
	f := New()
	rt.Assert(f.K.InitGenesis(f.Ctx, *gs) == nil, "an exported state can be imported")
	same(e, f)
	rt.Reach("end")
}

// ZV_GenesisState: contracts, parameters and block hashes survive exporting and importing.
func ZV_GenesisState() {
	e := NewTokens().Env
	e.EditParams(func(p *types.Params) {
		p.AllowCustomERC20 = rt.Choice("custom", 2) == 1
		p.AllowedPublishers = []string{"x"}
		p.AllowedCustomERC20s = []string{"y", "z"}
		p.NumRetainBlockHashes = 300
		p.GasRefundRatio = math.LegacyNewDecWithPrec(25, 2)
	})
	for i := 0; i < rt.Bound("entries", 1, 2); i++ {
		must(e.K.VMStore.Set(e.Ctx, rt.Bytes("key", 53), rt.Bytes("value", 1+31*i)))
		must(e.K.EVMBlockHashes.Set(e.Ctx, rt.U64("height"), rt.Bytes("hash", 32)))
	}
	roundTrip(e)
}

// ZV_GenesisTokens: tokens, their holders, denominations and collections survive exporting and importing.
func ZV_GenesisTokens() {
	e := NewTokens().Env
	must(e.K.ERC20s.Set(e.Ctx, rt.Bytes("token", 20)))
	holders := [2][]byte{rt.Bytes("holder", 20), rt.Bytes("holder", 20)}
	stores := rt.Bound("stores", 3, 4)
	for i := 0; i < stores; i++ {
		must(e.K.ERC20Stores.Set(e.Ctx, collections.Join(holders[i%2], append([]byte{byte(i)}, rt.Bytes("store", 19)...))))
	}
	// two collections and two more denominations, at addresses of their own
	for i := 0; i < 2; i++ {
		a, c := append([]byte{byte(i)}, rt.Bytes("contract", 19)...), append([]byte{byte(i)}, rt.Bytes("collection", 19)...)
		denom := fmt.Sprintf("denom%d", i)
		must(e.K.ERC20ContractAddrsByDenom.Set(e.Ctx, denom, a))
		must(e.K.ERC20DenomsByContractAddr.Set(e.Ctx, a, denom))
		class := fmt.Sprintf("class%d", i)
		must(e.K.ERC721ContractAddrsByClassId.Set(e.Ctx, class, c))
		must(e.K.ERC721ClassIdsByContractAddr.Set(e.Ctx, c, class))
		must(e.K.ERC721ClassURIs.Set(e.Ctx, c, []string{"", "uri"}[rt.Choice("uri", 2)]))
	}
	roundTrip(e)
}

// same compares the stored state of two environments.
func same(e, f *Env) {
	a, b := ve.Open(e.Ctx, ve.StoreMain), ve.Open(f.Ctx, ve.StoreMain)
	ka, kb := a.Keys(), b.Keys()
	rt.Assert(len(ka) == len(kb), "nothing is lost and nothing is added")
	for i, k := range ka {
		va, _ := a.Get([]byte(k))
		vb, _ := b.Get([]byte(kb[i]))
		rt.Assert(k == kb[i] && bytes.Equal(va, vb), "every entry is the same")
	}
}
