package verifk

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/types"
)

const SecondDenom = "zbar"

// TokEnv is an environment with three tokens: the fee token and a second
// token, both made by the chain, and a token of Alice made with the factory.
type TokEnv struct {
	*Env
	Token  common.Address
	Denoms [3]string // sorted; the first is the user's token
}

func NewTokens() *TokEnv {
	e := NewInit()
	return rt.Once("verifk.NewTokens", func() any {
		if err := e.K.ERC20Keeper().CreateERC20(e.Ctx, SecondDenom, 0); err != nil {
			panic(err)
		}
		t := e.CreateToken(Alice, "foo")
		return &TokEnv{Env: e, Token: t, Denoms: [3]string{types.DENOM_PREFIX + t.Hex()[2:], FeeDenom, SecondDenom}}
	}).(*TokEnv)
}

// CreateToken makes a token owned by the given account with the factory.
func (e *Env) CreateToken(owner common.Address, name string) common.Address {
	f, err := e.K.GetERC20FactoryAddr(e.Ctx)
	if err != nil {
		panic(err)
	}
	word := func(x int64) []byte { return common.LeftPadBytes(big.NewInt(x).Bytes(), 32) }
	str := cat(word(int64(len(name))), common.RightPadBytes([]byte(name), 32))
	in := cat(crypto.Keccak256([]byte("createERC20(string,string,uint8)"))[:4], word(96), word(160), word(0), str, str)
	ret, _, err := e.K.EVMCall(e.Ctx, owner, f, in, nil, nil)
	if err != nil {
		panic(err)
	}
	return common.BytesToAddress(ret)
}

// TokenMint lets the owner of a token mint.
func (e *Env) TokenMint(owner, token, to common.Address, x *big.Int) {
	in, err := e.K.ERC20Keeper().GetERC20ABI().Pack("mint", to, x)
	if err != nil {
		panic(err)
	}
	if _, _, err = e.K.EVMCall(e.Ctx, owner, token, in, nil, nil); err != nil {
		panic(err)
	}
}

func (t *TokEnv) Give(a common.Address, i int, x *big.Int) {
	if x.Sign() == 0 {
		return
	}
	if i == 0 {
		t.TokenMint(Alice, t.Token, a, x)
		return
	}
	t.Mint(a, t.Denoms[i], x)
}

func Coin(denom string, x *big.Int) sdk.Coin {
	return sdk.Coin{Denom: denom, Amount: math.NewIntFromBigInt(x)}
}
