package verifk

import (
	"errors"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"

	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	"github.com/initia-labs/minievm/x/evm/contracts/i_erc20_registry"
	"github.com/initia-labs/minievm/x/evm/types"
)

// Note is a message of another module.
type Note struct {
	Tag  string
	From [][]byte
	Bad  string // "unsupported", "invalid" or "failing"
}

func (n *Note) ValidateBasic() error {
	if n.Bad == "invalid" {
		return errors.New(n.Bad)
	}
	return nil
}

func (*Note) Reset()         {}
func (*Note) String() string { return "note" }
func (*Note) ProtoMessage()  {}

// Notes lets messages be written as the tag of a note, and records those that are executed.
func (e *Env) Notes(notes map[string]*Note) *[]string {
	ran := &[]string{}
	e.Cdc.Hooks.Msg = func(json string) (sdk.Msg, error) {
		n, ok := notes[json]
		if !ok {
			return nil, errors.New("unknown message")
		}
		return n, nil
	}
	e.Cdc.Hooks.Signers = func(m sdk.Msg) ([][]byte, error) { return m.(*Note).From, nil }
	e.Router.Unsupported = func(m sdk.Msg) bool { return m.(*Note).Bad == "unsupported" }
	e.Router.Handle = func(ctx sdk.Context, m sdk.Msg) (*sdk.Result, error) {
		if m.(*Note).Bad == "failing" {
			return nil, errors.New("failing")
		}
		*ran = append(*ran, m.(*Note).Tag)
		return &sdk.Result{}, nil
	}
	return ran
}

var (
	cosmosAt   = common.HexToAddress("0xf1")
	registryAt = common.HexToAddress("0xf2")
)

// in1 is the input of a method of the cosmos precompile.
func cosmosIn(method string, args ...any) []byte {
	abi, err := i_cosmos.ICosmosMetaData.GetAbi()
	if err != nil {
		panic(err)
	}
	b, err := abi.Pack(method, args...)
	if err != nil {
		panic(err)
	}
	return b
}

func registryIn(method string, args ...any) []byte {
	abi, err := i_erc20_registry.IErc20RegistryMetaData.GetAbi()
	if err != nil {
		panic(err)
	}
	b, err := abi.Pack(method, args...)
	if err != nil {
		panic(err)
	}
	return b
}

// callCode calls an address with fixed data (CALL, STATICCALL or DELEGATECALL); the result stays on the stack.
func callCode(op int, a common.Address, data []byte) []byte {
	var r []byte
	for i := 0; i < len(data); i += 32 {
		var w common.Hash
		copy(w[:], data[i:])
		r = asm(r, pushWord(w), push(i), opMSTORE)
	}
	r = asm(r, push(0), push(0), push(len(data)), push(0))
	if op == opCALL || op == opCALLCODE {
		r = asm(r, push(0))
	}
	return asm(r, pushAddr(a), opGAS, op)
}

// EditParams changes the stored parameters directly.
func (e *Env) EditParams(f func(p *types.Params)) {
	p, err := e.K.Params.Get(e.Ctx)
	if err != nil {
		panic(err)
	}
	f(&p)
	if err := e.K.Params.Set(e.Ctx, p); err != nil {
		panic(err)
	}
}
