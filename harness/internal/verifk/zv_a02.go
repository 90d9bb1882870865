package verifk

import (
	"bytes"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/initia-labs/minievm/app/ante"
	"github.com/initia-labs/minievm/app/posthandler"
	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/keeper"
	"github.com/initia-labs/minievm/x/evm/types"
)

// done is the last ante decorator.
type passed struct{ ctx *sdk.Context }

func (p passed) AnteHandle(ctx sdk.Context, _ sdk.Tx, _ bool, next sdk.AnteHandler) (sdk.Context, error) {
	*p.ctx = ctx
	return ctx, nil
}

// long is an account with a 32-byte address (as secp256r1 keys have).
var long = sdk.AccAddress(append(bytes.Repeat([]byte{0x77}, 12), Carol.Bytes()...))

func seqOf(e *Env, ctx sdk.Context, a sdk.AccAddress) uint64 {
	acc := e.AK.GetAccount(ctx, a)
	if acc == nil {
		return 0
	}
	return acc.GetSequence()
}

// ZV_Sequences: a transaction goes through the ante handler, its messages and
// the post handlers the way the SDK runs them.
func ZV_Sequences() {
	e := NewInit()
	accs := []sdk.AccAddress{Alice.Bytes(), Bob.Bytes(), long}
	kinds := []string{"call", "create", "create2", "other"}

	// a contract that reverts unless it is given a zero byte
	c := common.HexToAddress("0x5e000000000000000000000000000000000000c1")
	e.Deploy(c, asm(arg(0), push(6), opJUMPI, opSTOP, opJUMPDEST, push(0), push(0), opREVERT))

	mode := rt.Choice("mode", 3)
	n := 1 + rt.Choice("messages", rt.Bound("messages", 2, 2))
	t := &Tx{Gas: 10_000_000}
	type step struct{ who, kind int }
	var steps []step
	evm := [3]int{}
	creates := [3]bool{}
	count := [3]int{}
	fails := false
	first := [3]int{-1, -1, -1}
	for i := 0; i < n; i++ {
		ni := string(rune('0' + i))
		s := step{who: rt.Choice("sender"+ni, 3), kind: rt.Choice("kind"+ni, 4)}
		sender := accs[s.who].String()
		in := rt.Bytes("input"+ni, 32)
		bad := common.BytesToHash(in) != common.Hash{}
		zero := math.ZeroInt()
		// init code: empty contract, or revert
		code := "0x00"
		if bad {
			code = "0x60006000fd"
		}
		switch kinds[s.kind] {
		case "call":
			t.Msgs = append(t.Msgs, &types.MsgCall{Sender: sender, ContractAddr: c.Hex(), Input: hexutil.Encode(in), Value: zero})
		case "create":
			creates[s.who] = true
			t.Msgs = append(t.Msgs, &types.MsgCreate{Sender: sender, Code: code, Value: zero})
		case "create2":
			t.Msgs = append(t.Msgs, &types.MsgCreate2{Sender: sender, Code: code, Value: zero, Salt: uint64(i)})
		case "other":
			t.Msgs = append(t.Msgs, &types.MsgUpdateParams{Authority: sender})
		}
		count[s.who]++
		if s.kind < 3 {
			if evm[s.who] == 0 && count[s.who] == 1 {
				first[s.who] = i
			}
			evm[s.who]++
		}
		fails = fails || bad
		steps = append(steps, s)
		if bad && i+1 < n {
			n = i + 1
		}
	}
	var before [3]uint64
	for i, a := range accs {
		acc := e.AK.NewAccountWithAddress(e.Ctx, a)
		// (the address of a created contract hashes the sequence: fixed there)
		before[i] = 5
		if !creates[i] {
			before[i] = rt.U64("sequence" + string(rune('0'+i)))
			rt.Assume(before[i] < 1<<62)
		}
		if err := acc.SetSequence(before[i]); err != nil {
			panic(err)
		}
		e.AK.SetAccount(e.Ctx, acc)
	}

	m := []sdk.ExecMode{sdk.ExecModeFinalize, sdk.ExecModeCheck, sdk.ExecModeSimulate}[mode]
	ctx := e.Ctx.WithExecMode(m)
	var msgCtx sdk.Context
	h := sdk.ChainAnteDecorators(ante.NewIncrementSequenceDecorator(AuthAK{e.AK}), passed{&msgCtx})
	if _, err := h(ctx, t, mode == 2); err != nil {
		rt.Assert(false, "a well-formed transaction passes")
		return
	}
	if mode == 1 {
		rt.Reach("checked")
		for i, a := range accs {
			want := before[i]
			if count[i] > 0 {
				want++
			}
			rt.Assert(seqOf(e, ctx, a) == want, "a checked transaction raises the sequence of each signer by one, and of nobody else")
		}
		return
	}

	branch, write := msgCtx.CacheContext()
	srv := keeper.NewMsgServerImpl(e.K)
	var err error
	for i, msg := range t.Msgs {
		var addr string
		switch msg := msg.(type) {
		case *types.MsgCall:
			_, err = srv.Call(branch, msg)
		case *types.MsgCreate:
			var r *types.MsgCreateResponse
			if r, err = srv.Create(branch, msg); err == nil {
				addr = r.ContractAddr
			}
		case *types.MsgCreate2:
			_, err = srv.Create2(branch, msg)
		default:
			if i+1 == len(t.Msgs) && fails {
				err = types.ErrInvalidRequest
			}
		}
		who := steps[i].who
		if addr != "" && first[who] == i && who < 2 {
			rt.Reach("created")
			want := crypto.CreateAddress(common.BytesToAddress(accs[who]), before[who])
			rt.Assert(common.HexToAddress(addr) == want, "the first contract of a transaction is at the address given by the sender and the sequence of the transaction")
		}
		if err != nil {
			break
		}
	}
	rt.Assert((err != nil) == fails, "a transaction fails exactly when a message does")
	if _, perr := posthandler.NewPostHandler(AuthAK{e.AK}, e.K)(branch, t, mode == 2, err == nil); perr != nil {
		rt.Assert(false, "the post handlers pass")
	}
	if err == nil {
		write()
	}
	if mode == 2 {
		rt.Reach("simulated")
		return
	}
	for i, a := range accs {
		after := seqOf(e, ctx, a)
		switch {
		case count[i] == 0:
			rt.Assert(after == before[i], "the sequence of an account that did not sign stays")
		case err == nil:
			rt.Reach("succeeded")
			rt.Assert(after > before[i], "a successful transaction raises the sequence of each signer")
			rt.Assert(after-before[i] <= uint64(count[i]), "the sequence goes up by no more than the messages sent")
		case evm[i] > 0:
			rt.Reach("failed")
			rt.Assert(after >= before[i], "no sequence goes down")
			rt.Assert(after > before[i], "a failed transaction raises the sequence of a sender of EVM messages")
		default:
			rt.Assert(after == before[i]+1, "a failed transaction raises the sequence of every other signer by one")
		}
	}
}
