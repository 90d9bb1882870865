package verifk

import (
	"math/big"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"

	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm"
	"github.com/initia-labs/minievm/x/evm/types"
)

// ZV_BlockHash: what BLOCKHASH returns after any history, by one step from any reachable state.
func ZV_BlockHash() {
	e := NewInit()
	num := []uint64{0, 256, 257, 1000}[rt.Choice("window", 4)]
	e.EditParams(func(p *types.Params) { p.NumRetainBlockHashes = num })
	// returns BLOCKHASH of its argument
	e.Deploy(Carol, asm(arg(0), opBLOCKHASH, push(0), opMSTORE, push(32), push(0), opRETURN))

	height := rt.I64("height")
	rt.Assume(height >= 1 && height < 1<<62)
	// what is stored before the block: hashes of earlier blocks, at most as many as are kept
	old := make([]uint64, rt.Bound("stored", 1, 2))
	hash := make([]common.Hash, len(old))
	for i := range old {
		old[i], hash[i] = rt.U64("old"), Hash("old hash")
		rt.Assume(old[i] >= 1 && old[i] < 1<<62 && old[i]+1 < uint64(height) && (num == 0 || old[i]+1+num >= uint64(height)))
		rt.Assume(hash[i] != (common.Hash{}) && (i == 0 || old[0] != old[i]))
		if err := e.K.EVMBlockHashes.Set(e.Ctx, old[i], hash[i].Bytes()); err != nil {
			panic(err)
		}
	}
	var last common.Hash
	blocks := rt.Bound("blocks", 1, 2)
	var hs []common.Hash
	for i := 0; i < blocks; i++ {
		last = Hash("header hash")
		rt.Assume(last != (common.Hash{}))
		hs = append(hs, last)
		ctx := e.Ctx.WithBlockHeight(height + int64(i)).WithHeaderHash(last.Bytes())
		_, err := evm.PreBlock(ctx, e.K)
		rt.Assert(err == nil, "a block can begin")
	}
	now := height + int64(blocks) - 1
	ctx := e.Ctx.WithBlockHeight(now).WithHeaderHash(last.Bytes())
	n := rt.U64("n")
	// the hash that the chain knows for block n: the header hash given to the next block
	var want common.Hash
	for i := range old {
		if n == old[i] {
			want = hash[i]
		}
	}
	for i, h := range hs {
		b := height + int64(i) - 1
		if n == uint64(b) && b >= 1 {
			want = h
		}
	}
	within := n < uint64(now) && n+256 >= uint64(now)
	if !within {
		want = common.Hash{}
		rt.Reach("outside")
	} else {
		rt.Reach("inside")
	}
	ret, err := e.K.EVMStaticCall(ctx, Alice, Carol, Word(new(big.Int).SetUint64(n)).Bytes(), nil)
	rt.Assert(err == nil && common.BytesToHash(ret) == want, "BLOCKHASH returns the hash of each of the last 256 blocks and zero for others")
	// at most as many hashes as configured are kept
	if num != 0 {
		for i := range old {
			has, err := e.K.EVMBlockHashes.Has(e.Ctx, old[i])
			rt.Assert(err == nil && has == (old[i]+num >= uint64(now)), "hashes are kept exactly as long as configured")
		}
	}
}

// ZV_BlockContext: what contracts see of the block and the transaction.
func ZV_BlockContext() {
	e := NewInit()
	ops := []int{0x41, 0x42, 0x43, 0x44, 0x46, opORIGIN, opCALLER, opADDRESS} // coinbase timestamp number prevrandao chainid ...
	var code []byte
	for i, op := range ops {
		code = asm(code, op, push(32*i), opMSTORE)
	}
	e.Deploy(Dave, asm(code, push(32*len(ops)), push(0), opRETURN))
	// a contract that passes on what the other one sees
	e.Deploy(Carol, asm(callCode(opCALL, Dave, nil), opPOP, opRETURNDATASIZE, push(0), push(0), opRETURNDATACOPY, opRETURNDATASIZE, push(0), opRETURN))
	caller := Addr("caller")
	rt.Assume(caller != Carol && caller != Dave)
	height := rt.I64("height")
	rt.Assume(height >= 1)
	hh := Hash("header hash")
	sec := rt.Range("time", 0, 1<<40)
	ctx := e.Ctx.WithBlockHeight(height).WithHeaderHash(hh.Bytes()).WithBlockTime(time.Unix(sec, 5))
	var ret []byte
	var err error
	from := caller
	if rt.Choice("nested", 2) == 1 {
		from = Carol
		ret, _, err = e.K.EVMCall(ctx, caller, Carol, nil, nil, nil)
	} else {
		ret, _, err = e.K.EVMCall(ctx, caller, Dave, nil, nil, nil)
	}
	rt.Assert(err == nil && len(ret) == 32*len(ops), "call")
	word := func(i int) common.Hash { return common.BytesToHash(ret[32*i : 32*i+32]) }
	id := types.ConvertCosmosChainIDToEthereumChainID(sdk.UnwrapSDKContext(ctx).ChainID())
	rt.Assert(word(0) == common.Hash{}, "there is no coinbase")
	rt.Assert(word(1) == Word(big.NewInt(sec)), "block time")
	rt.Assert(word(2) == Word(big.NewInt(height)), "block number is the height of the chain")
	rt.Assert(word(3) == hh, "randomness is the header hash")
	rt.Assert(word(4) == Word(id), "chain id")
	rt.Assert(common.BytesToAddress(word(5).Bytes()) == caller, "origin is the account that called")
	rt.Assert(common.BytesToAddress(word(6).Bytes()) == from, "caller is the direct caller")
	rt.Assert(common.BytesToAddress(word(7).Bytes()) == Dave, "address of the contract itself")
	rt.Reach("end")
}
