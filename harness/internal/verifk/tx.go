package verifk

import (
	"context"
	"crypto/ecdsa"

	"cosmossdk.io/core/address"
	txsigning "cosmossdk.io/x/tx/signing"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/codec"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	gogoproto "github.com/cosmos/gogoproto/proto"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
	protov2 "google.golang.org/protobuf/proto"

	"github.com/initia-labs/initia/crypto/ethsecp256k1"
	ve "github.com/initia-labs/minievm/internal/verifenv"
	rt "github.com/initia-labs/minievm/internal/verifrt"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"
	"github.com/initia-labs/minievm/x/evm/keeper"
	"github.com/initia-labs/minievm/x/evm/types"
)

// Tx is a transaction of the chain: what the real decoder hands on.
type Tx struct {
	Msgs           []sdk.Msg
	Memo           string
	Sigs           []signing.SignatureV2
	Fee            sdk.Coins
	Gas            uint64
	Payer, Granter []byte
}

var _ authsigning.Tx = &Tx{}

func (t *Tx) GetMsgs() []sdk.Msg                    { return t.Msgs }
func (t *Tx) GetMsgsV2() ([]protov2.Message, error) { return nil, nil }
func (t *Tx) GetMemo() string                       { return t.Memo }
func (t *Tx) GetFee() sdk.Coins                     { return t.Fee }
func (t *Tx) GetGas() uint64                        { return t.Gas }
func (t *Tx) GetTimeoutHeight() uint64              { return 0 }
func (t *Tx) ValidateBasic() error                  { return nil }
func (t *Tx) FeeGranter() []byte                    { return t.Granter }
func (t *Tx) GetSigningTxData() txsigning.TxData    { return txsigning.TxData{} }
func (t *Tx) GetSignaturesV2() ([]signing.SignatureV2, error) {
	return t.Sigs, nil
}

func (t *Tx) FeePayer() []byte {
	if t.Payer != nil {
		return t.Payer
	}
	s, err := t.GetSigners()
	if err != nil {
		panic(err)
	}
	return s[0]
}

func MsgSender(m sdk.Msg) string {
	switch m := m.(type) {
	case *types.MsgCall:
		return m.Sender
	case *types.MsgCreate:
		return m.Sender
	case *types.MsgCreate2:
		return m.Sender
	case *types.MsgUpdateParams:
		return m.Authority
	}
	panic("message")
}

// GetSigners lists the senders of the messages, each once.
func (t *Tx) GetSigners() (out [][]byte, err error) {
	seen := map[string]bool{}
	for _, m := range t.Msgs {
		s := MsgSender(m)
		if seen[s] {
			continue
		}
		seen[s] = true
		b, err := sdk.AccAddressFromBech32(s)
		if err != nil {
			return nil, err
		}
		out = append(out, b)
	}
	return out, nil
}

func (t *Tx) GetPubKeys() (out []cryptotypes.PubKey, err error) {
	for _, s := range t.Sigs {
		out = append(out, s.PubKey)
	}
	return out, nil
}

// TxConfig makes builders of Tx (only NewTxBuilder is there).
type TxConfig struct{ client.TxConfig }

func (TxConfig) NewTxBuilder() client.TxBuilder { return &TxBuilder{tx: &Tx{}} }

type TxBuilder struct {
	client.TxBuilder
	tx *Tx
}

func (b *TxBuilder) GetTx() authsigning.Tx                        { return b.tx }
func (b *TxBuilder) SetMsgs(m ...sdk.Msg) error                   { b.tx.Msgs = m; return nil }
func (b *TxBuilder) SetSignatures(s ...signing.SignatureV2) error { b.tx.Sigs = s; return nil }
func (b *TxBuilder) SetMemo(m string)                             { b.tx.Memo = m }
func (b *TxBuilder) SetFeeAmount(c sdk.Coins)                     { b.tx.Fee = c }
func (b *TxBuilder) SetFeePayer(a sdk.AccAddress)                 { b.tx.Payer = a }
func (b *TxBuilder) SetGasLimit(g uint64)                         { b.tx.Gas = g }
func (b *TxBuilder) SetFeeGranter(a sdk.AccAddress)               { b.tx.Granter = a }

// Key is the key of the signer.
const keyHex = "b71c71a67e1177ad4e901695e1b4b9ee17ae16c6668d313eac2f96dbcda3f291"

var (
	SignerPub  = hexutil.MustDecode("0x04ca634cae0d49acb401d8a4c6b6fe8c55b70d115bf400769cc1400f3258cd31387574077f301b421bc84df7266c44e9e6d569fc56be00812904767bf5ccd1fc7f")
	SignerComp = hexutil.MustDecode("0x03ca634cae0d49acb401d8a4c6b6fe8c55b70d115bf400769cc1400f3258cd3138")
	Signer     = common.HexToAddress("0x71562b71999873DB5b286dF957af199Ec94617F7")
)

func SignerKey() cryptotypes.PubKey { return &ethsecp256k1.PubKey{Key: SignerComp} }

// Sign is the signer's signature of a hash: an ideal one in the symbolic execution.
func Sign(hash common.Hash) []byte {
	var k *ecdsa.PrivateKey
	if !rt.Symbolic() {
		var err error
		if k, err = crypto.HexToECDSA(keyHex); err != nil {
			panic(err)
		}
		sig, err := crypto.Sign(hash[:], k)
		if err != nil {
			panic(err)
		}
		return sig
	}
	sig := rt.Bytes("sig", 65)
	rt.Assume(sig[0] != 0 && sig[32] != 0 && sig[64] < 2)
	rt.Signed(hash[:], sig, SignerPub)
	return sig
}

// txCodec is the keeper for building transactions: natively one with the real
// codec, in the symbolic execution the same keeper with builders of Tx.
func (e *Env) txCodec() *keeper.Keeper {
	if rt.Symbolic() {
		rt.Provide("txconfig", TxConfig{})
		return e.K
	}
	reg, err := codectypes.NewInterfaceRegistryWithOptions(codectypes.InterfaceRegistryOptions{
		ProtoFiles:     gogoproto.HybridResolver,
		SigningOptions: txsigning.Options{AddressCodec: AC{}, ValidatorAddressCodec: AC{}},
	})
	if err != nil {
		panic(err)
	}
	types.RegisterInterfaces(reg)
	cryptocodec.RegisterInterfaces(reg)
	return keeper.NewKeeper(AC{}, codec.NewProtoCodec(reg), ve.Service{Store: ve.StoreMain}, ve.Service{Store: ve.StoreTransient},
		e.AK, e.Bank, e.Pool, e.Gas, e.Router, nil, Authority.String(), evmconfig.DefaultEVMConfig(), types.QueryCosmosWhitelist{})
}

// AuthAK is the account keeper as the transaction checks see it.
type AuthAK struct{ *ve.AK }

func (AuthAK) AddressCodec() address.Codec                    { return AC{} }
func (AuthAK) GetParams(context.Context) (p authtypes.Params) { return authtypes.DefaultParams() }
