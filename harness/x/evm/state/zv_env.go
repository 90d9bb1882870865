package state

import (
	"context"
	"errors"

	"cosmossdk.io/collections"
	"cosmossdk.io/log"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/ethereum/go-ethereum/common"

	ve "github.com/initia-labs/minievm/internal/verifenv"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type zvStores struct {
	vm       collections.Map[[]byte, []byte]
	tvm      collections.Map[collections.Pair[uint64, []byte], []byte]
	tcreated collections.KeySet[collections.Pair[uint64, []byte]]
	tsd      collections.KeySet[collections.Pair[uint64, []byte]]
	tlogs    collections.Map[collections.Pair[uint64, uint64], evmtypes.Log]
	tlogsize collections.Map[uint64, uint64]
	tal      collections.KeySet[collections.Pair[uint64, []byte]]
	trefund  collections.Map[uint64, uint64]
	exec     uint64
	ak       *ve.AK
	fee      common.Address
}

func zvCloneAcc(a sdk.AccountI) sdk.AccountI {
	switch x := a.(type) {
	case *evmtypes.ContractAccount:
		b := *x.BaseAccount
		c := *x
		c.BaseAccount = &b
		return &c
	case *evmtypes.ShorthandAccount:
		b := *x.BaseAccount
		c := *x
		c.BaseAccount = &b
		return &c
	}
	panic("unknown account type")
}

func zvNewStores() *zvStores {
	sb := collections.NewSchemaBuilder(ve.Service{Store: ve.StoreMain})
	tsb := collections.NewSchemaBuilderFromAccessor(ve.Service{Store: ve.StoreTransient}.OpenTransientStore)
	cdc := ve.Cdc{}
	return &zvStores{
		vm:       collections.NewMap(sb, evmtypes.VMStorePrefix, "vm_store", collections.BytesKey, collections.BytesValue),
		tvm:      collections.NewMap(tsb, evmtypes.TransientVMStorePrefix, "transient_vm_store", collections.PairKeyCodec(collections.Uint64Key, collections.BytesKey), collections.BytesValue),
		tcreated: collections.NewKeySet(tsb, evmtypes.TransientCreatedPrefix, "transient_created", collections.PairKeyCodec(collections.Uint64Key, collections.BytesKey)),
		tsd:      collections.NewKeySet(tsb, evmtypes.TransientSelfDestructPrefix, "transient_self_destruct", collections.PairKeyCodec(collections.Uint64Key, collections.BytesKey)),
		tlogs:    collections.NewMap(tsb, evmtypes.TransientLogsPrefix, "transient_logs", collections.PairKeyCodec(collections.Uint64Key, collections.Uint64Key), codec.CollValue[evmtypes.Log](cdc)),
		tlogsize: collections.NewMap(tsb, evmtypes.TransientLogSizePrefix, "transient_log_size", collections.Uint64Key, collections.Uint64Value),
		tal:      collections.NewKeySet(tsb, evmtypes.TransientAccessListPrefix, "transient_access_list", collections.PairKeyCodec(collections.Uint64Key, collections.BytesKey)),
		trefund:  collections.NewMap(tsb, evmtypes.TransientRefundPrefix, "transient_refund", collections.Uint64Key, collections.Uint64Value),
		ak:       &ve.AK{CloneFn: zvCloneAcc},
	}
}

func (z *zvStores) db(ctx context.Context) *StateDB {
	db, err := NewStateDB(sdk.UnwrapSDKContext(ctx), log.NewNopLogger(), z.ak, z.vm, z.tvm, z.tcreated, z.tsd, z.tlogs, z.tlogsize, z.tal, z.trefund, &z.exec, nil, nil, z.fee)
	if err != nil {
		panic(err)
	}
	return db
}

var errZV = errors.New("zv")
var _ = authtypes.NewBaseAccount
