package verifk

import (
	"math/big"
	"strings"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/holiman/uint256"

	rt "github.com/initia-labs/minievm/internal/verifrt"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"
	"github.com/initia-labs/minievm/x/evm/types"
)

// gasProgram returns code of a straight line of instructions (but for 5).
func gasProgram(n int) []byte {
	switch n {
	case 0: // write a new slot
		return asm(push(1), push(0), opSSTORE, opSTOP)
	case 1: // clear a slot: refund
		return asm(push(0), push(7), opSSTORE, opSTOP)
	case 2: // revert after a write
		return asm(push(1), push(0), opSSTORE, codeRevert)
	case 3: // revert after a refund
		return asm(push(0), push(7), opSSTORE, codeRevert)
	case 4: // what gas there is
		return asm(opGAS, push(0), opMSTORE, push(32), push(0), opRETURN)
	case 5: // a refund that is reverted in a sub-call
		return asm(callCode(opCALL, Dave, nil), opPOP, opSTOP)
	case 6: // send a message
		return asm(callCode(opCALL, cosmosAt, cosmosIn("execute_cosmos", "m")), opPOP, opSTOP)
	}
	panic("program")
}

// metered runs f; running out of the gas of the meter itself is reported as such.
func metered(f func() error) (err error, out bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(storetypes.ErrorOutOfGas); !ok {
				panic(r)
			}
			out = true
		}
	}()
	return f(), false
}

// ZV_GasCall: the gas meter of a transaction is charged for what the EVM used.
func ZV_GasCall() {
	e := NewInit()
	n := rt.Choice("program", 7)
	code := gasProgram(n)
	clears := asm(push(0), push(7), opSSTORE, codeRevert)
	set := asm(push(5), push(7), opSSTORE, opSTOP)
	install := func(a common.Address, code []byte) {
		e.Deploy(a, set)
		if _, _, err := e.K.EVMCall(e.Ctx, Alice, a, nil, nil, nil); err != nil {
			panic(err)
		}
		_, _, db := e.EVM(Alice)
		db.SetCode(a, code)
		if err := db.Commit(); err != nil {
			panic(err)
		}
	}
	install(Carol, code)
	install(Dave, clears)
	left := uint64(0)
	e.Notes(map[string]*Note{"m": {Tag: "m", From: [][]byte{Carol.Bytes()}}})
	e.Router.Handle = func(ctx sdk.Context, m sdk.Msg) (*sdk.Result, error) {
		left = ctx.GasMeter().GasRemaining()
		return &sdk.Result{}, nil
	}
	// what the EVM itself says
	const big0 = 1_000_000
	bctx, _ := e.Ctx.CacheContext()
	bctx = bctx.WithGasMeter(storetypes.NewGasMeter(10 * big0))
	_, evm, err := e.K.CreateEVM(bctx, Alice, nil)
	if err != nil {
		panic(err)
	}
	raw, rest, err0 := evm.Call(vm.AccountRef(Alice), Carol, nil, big0, new(uint256.Int))
	used := big0 - rest
	refund := evm.StateDB.GetRefund()
	charge := used
	if refund > used/5 {
		refund = used / 5
	}
	charge -= refund

	// what the chain itself uses before the call: it reads the decimals of the fee token
	base := bctx.GasMeter().GasConsumed()
	limit, before := rt.U64("limit"), rt.U64("used before")
	rt.Assume(limit < 1<<62 && before <= limit && limit-before >= base)
	avail := limit - before - base
	if n == 5 || n == 6 {
		rt.Assume(avail >= big0) // 63/64 of the gas go to the call
	}
	if err0 != nil {
		rt.Assume(avail != used) // see DESIGN.md: a revert with nothing left is not charged
	}
	ctx := e.Ctx.WithGasMeter(storetypes.NewGasMeter(limit))
	ctx.GasMeter().ConsumeGas(before, "before")
	sim := n == 4 && rt.Choice("simulate", 2) == 1
	if sim {
		ctx = ctx.WithExecMode(sdk.ExecModeSimulate).WithGasMeter(storetypes.NewInfiniteGasMeter())
	}
	var ret []byte
	static := n == 4 && rt.Choice("static", 2) == 1
	err, out := metered(func() (err error) {
		if static {
			ret, err = e.K.EVMStaticCall(ctx, Alice, Carol, nil, nil)
		} else {
			ret, _, err = e.K.EVMCall(ctx, Alice, Carol, nil, nil, nil)
		}
		return err
	})
	if sim {
		rt.Reach("simulated")
		rt.Assert(err == nil && ctx.GasMeter().GasConsumed() == base+charge, "a simulation reports the gas used")
		avail = evmconfig.DefaultEVMConfig().ContractSimulationGasLimit
	} else if avail < used {
		rt.Reach("out of gas")
		rt.Assert(out || err != nil, "a call that runs out of gas fails")
		rt.Assert(ctx.GasMeter().GasConsumed() >= limit, "running out of gas uses all of it")
		return
	} else {
		rt.Assert(!out, "a call with enough gas does not run out of it")
		rt.Assert((err == nil) == (err0 == nil), "the call ends as the EVM says")
		rt.Assert(ctx.GasMeter().GasConsumed() == before+base+charge, "the meter is charged for what the EVM used, less the refund")
		if err != nil {
			rt.Reach("reverted")
			rt.Assert(strings.Contains(err.Error(), "revert"), "a revert is reported as such")
		}
	}
	if n == 1 {
		rt.Reach("refund")
	}
	if n == 4 {
		want := new(big.Int).SetUint64(avail - big0)
		want.Add(want, new(big.Int).SetBytes(raw))
		want.SetUint64(want.Uint64()) // modulo 2^64
		rt.Assert(common.BytesToHash(ret) == Word(want), "contracts see the gas that is left")
	}
	if n == 6 {
		rt.Reach("message")
		rt.Assert(left == avail-charge, "messages run with the gas that is left")
	}
}

// ZV_GasRefundCap: the gas charged for every use and refund.
func ZV_GasRefundCap() {
	balance, rest, refund := rt.U64("balance"), rt.U64("rest"), rt.U64("refund")
	rt.Assume(rest <= balance)
	used := balance - rest
	got := types.CalGasUsed(balance, rest, refund)
	want := used
	if refund >= used/5 {
		want -= used / 5
		rt.Reach("capped")
	} else {
		want -= refund
		rt.Reach("full")
	}
	rt.Assert(got == want && got <= used, "the refund is at most a fifth of the gas used")
}

// ZV_GasCreate: the same for creations.
func ZV_GasCreate() {
	e := NewInit()
	n := rt.Choice("program", 3)
	init := [][]byte{initOf(codeStop), asm(push(1), push(0), opSSTORE, codeRevert), initOf([]byte{0xef})}[n]
	two := rt.Choice("create2", 2) == 1
	const big0 = 1_000_000
	bctx, _ := e.Ctx.CacheContext()
	bctx = bctx.WithGasMeter(storetypes.NewGasMeter(10 * big0))
	_, evm, err := e.K.CreateEVM(bctx, Alice, nil)
	if err != nil {
		panic(err)
	}
	var rest uint64
	var err0 error
	if two {
		_, _, rest, err0 = evm.Create2(vm.AccountRef(Alice), init, big0, new(uint256.Int), uint256.NewInt(3))
	} else {
		_, _, rest, err0 = evm.Create(vm.AccountRef(Alice), init, big0, new(uint256.Int))
	}
	used := big0 - rest
	// what the chain itself uses before the call: it reads the decimals of the fee token
	base := bctx.GasMeter().GasConsumed()
	limit, before := rt.U64("limit"), rt.U64("used before")
	rt.Assume(limit < 1<<62 && before <= limit && limit-before >= base)
	avail := limit - before - base
	ctx := e.Ctx.WithGasMeter(storetypes.NewGasMeter(limit))
	ctx.GasMeter().ConsumeGas(before, "before")
	if err0 != nil {
		rt.Assume(avail != used) // see DESIGN.md: a revert with nothing left is not charged
	}
	err, out := metered(func() (err error) {
		if two {
			_, _, _, err = e.K.EVMCreate2(ctx, Alice, init, nil, 3, nil)
		} else {
			_, _, _, err = e.K.EVMCreate(ctx, Alice, init, nil, nil)
		}
		return err
	})
	if n == 2 {
		rt.Reach("invalid")
		rt.Assert(out || err != nil, "invalid code is refused")
		return
	}
	if avail < used {
		rt.Reach("out of gas")
		rt.Assert(out || err != nil, "running out of gas fails the creation")
	} else {
		rt.Assert(!out, "a creation with enough gas does not run out of it")
		rt.Assert((err == nil) == (err0 == nil), "the creation ends as the EVM says")
		rt.Assert(ctx.GasMeter().GasConsumed() == before+base+used, "the meter is charged for what the EVM used")
		if err == nil {
			rt.Reach("created")
		} else {
			rt.Reach("reverted")
		}
	}
}

// ZV_GasNested: a contract called with some gas runs with no more than that.
func ZV_GasNested() {
	e := NewInit()
	e.Deploy(Dave, asm(opGAS, push(0), opMSTORE, push(32), push(0), opRETURN))
	e.Deploy(Carol, asm(push(32), push(32), push(0), push(0), push(0), pushAddr(Dave), arg(0), opCALL,
		push(0), opMSTORE, push(64), push(0), opRETURN))
	_, evm, err := e.K.CreateEVM(e.Ctx, Alice, nil)
	if err != nil {
		panic(err)
	}
	run := func(gas uint64) (ok bool, seen uint64) {
		out, _, err := evm.Call(vm.AccountRef(Alice), Carol, Word(new(big.Int).SetUint64(gas)).Bytes(), 1_000_000, new(uint256.Int))
		if err != nil {
			panic(err)
		}
		return out[31] == 1, new(big.Int).SetBytes(out[32:64]).Uint64()
	}
	_, cold := run(100_000)
	_, warm := run(100_000)
	rt.Assert(cold < 100_000 && warm < 100_000, "reading the gas costs gas")
	// the code is charged for again only when it is read in another transaction
	e.Ctx, _ = e.Ctx.CacheContext()
	_, evm, _ = e.K.CreateEVM(e.Ctx, Alice, nil)
	gas := rt.U64("gas")
	rt.Assume(gas <= 100_000)
	ok, seen := run(gas)
	first := 100_000 - cold - 2 // the price of the first instructions of the code
	if gas < first {
		rt.Reach("too little")
		rt.Assert(!ok, "a call given less gas than the first part of the code costs fails")
		return
	}
	if ok {
		rt.Reach("ran")
		rt.Assert(seen <= gas-first, "a call runs with no more gas than it was given")
	} else {
		rt.Reach("failed")
	}
}
