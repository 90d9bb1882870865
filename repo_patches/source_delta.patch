From 93c2fa0410f4df42816cd35bcec656b050286ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 01/19] fix: keep the active snapshot when reverting to it, so
 its writes are committed

---
 x/evm/state/statedb.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 4eb7926..47697a5 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -585,8 +585,9 @@ func (s *StateDB) RevertToSnapshot(i int) {
 	snap := s.snaps[i]
 	s.ctx = snap.ctx
 
-	// clear the snapshots after the given id
-	s.snaps = s.snaps[:i]
+	// clear the snapshots after the given id; the snapshot with the given id
+	// is still in use and must be kept so that Commit writes it back
+	s.snaps = s.snaps[:i+1]
 }
 
 // Prepare handles the preparatory steps for executing a state transition with.
-- 
2.43.0


From cde14deeb6265ad1e78becdecfc57ef1492e2c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 02/19] fix: key transient storage by contract address
 (EIP-1153)

---
 x/evm/state/keys.go    | 4 ++++
 x/evm/state/statedb.go | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/x/evm/state/keys.go b/x/evm/state/keys.go
index 1919804..e58bfdd 100644
--- a/x/evm/state/keys.go
+++ b/x/evm/state/keys.go
@@ -28,6 +28,10 @@ func stateKeyPrefix(addr common.Address) []byte {
 	return append(addr.Bytes(), StateKeyPrefix...)
 }
 
+func transientStateKey(addr common.Address, slot common.Hash) []byte {
+	return append(addr.Bytes(), slot.Bytes()...)
+}
+
 func uint64ToBytes(v uint64) []byte {
 	bz := make([]byte, 8)
 	binary.BigEndian.PutUint64(bz, v)
diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 47697a5..73921cd 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -540,14 +540,14 @@ func (s *StateDB) SetTransientState(addr common.Address, key, value common.Hash)
 		return
 	}
 
-	if err := s.transientVMStore.Set(s.ctx, collections.Join(s.execIndex, key[:]), value[:]); err != nil {
+	if err := s.transientVMStore.Set(s.ctx, collections.Join(s.execIndex, transientStateKey(addr, key)), value[:]); err != nil {
 		panic(err)
 	}
 }
 
 // GetTransientState gets transient storage for a given account.
 func (s *StateDB) GetTransientState(addr common.Address, key common.Hash) common.Hash {
-	data, err := s.transientVMStore.Get(s.ctx, collections.Join(s.execIndex, key[:]))
+	data, err := s.transientVMStore.Get(s.ctx, collections.Join(s.execIndex, transientStateKey(addr, key)))
 	if err != nil && errors.Is(err, collections.ErrNotFound) {
 		return common.Hash{}
 	} else if err != nil {
-- 
2.43.0


From 070fea12b5c098f294f0ae000f51af71755abd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 03/19] fix: pay only the burnt coin to the community pool, not
 the whole set

Burning several coins where some are user-made ERC20 tokens funded the
community pool with the whole amount once per such token.
---
 x/evm/keeper/erc20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index 813c143..7ef9ad7 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -66,7 +66,7 @@ func (k ERC20Keeper) BurnCoins(ctx context.Context, addr sdk.AccAddress, amount
 		// if a coin is not generated from 0x1, then send the coin to community pool
 		// because we don't have burn capability.
 		if types.IsERC20Denom(coin.Denom) {
-			if err := k.communityPoolKeeper.FundCommunityPool(ctx, amount, evmAddr.Bytes()); err != nil {
+			if err := k.communityPoolKeeper.FundCommunityPool(ctx, sdk.NewCoins(coin), evmAddr.Bytes()); err != nil {
 				return err
 			}
 
-- 
2.43.0


From c6ccf6aed3a38f790bc2a90ab4efbeded150286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 04/19] fix: run precompiles on the current EVM snapshot so
 that their effects revert with the call frame

---
 x/evm/keeper/context.go     |  8 +++++---
 x/evm/keeper/precompiles.go | 24 +++++++++++++++++++-----
 x/evm/state/snapshot.go     | 16 ++++++++++++++++
 x/evm/state/statedb.go      |  5 +++++
 4 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index a010cd5..6d2e80b 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -169,6 +169,10 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 	if err != nil {
 		return ctx, nil, err
 	}
+
+	// set cosmos messages to context
+	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
+
 	stateDB, err := k.NewStateDB(ctx, evm, fee)
 	if err != nil {
 		return ctx, nil, err
@@ -179,15 +183,13 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		ExtraEips: extraEIPs,
 	}
 
-	// set cosmos messages to context
-	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
 	*evm = *vm.NewEVMWithPrecompiles(
 		blockContext,
 		txContext,
 		stateDB,
 		types.DefaultChainConfig(ctx),
 		vmConfig,
-		k.precompiles.toMap(ctx),
+		k.precompiles.toMap(stateDB),
 	)
 
 	if tracer != nil {
diff --git a/x/evm/keeper/precompiles.go b/x/evm/keeper/precompiles.go
index 5f7a39c..3e7400c 100644
--- a/x/evm/keeper/precompiles.go
+++ b/x/evm/keeper/precompiles.go
@@ -1,13 +1,12 @@
 package keeper
 
 import (
-	"context"
-
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/core/vm"
 
 	cosmosprecompile "github.com/initia-labs/minievm/x/evm/precompiles/cosmos"
 	erc20registryprecompile "github.com/initia-labs/minievm/x/evm/precompiles/erc20_registry"
+	evmstate "github.com/initia-labs/minievm/x/evm/state"
 	"github.com/initia-labs/minievm/x/evm/types"
 )
 
@@ -54,16 +53,31 @@ func (k *Keeper) loadPrecompiles() error {
 // precompiles is a list of precompiled contracts.
 type precompiles []precompile
 
-// toMap converts the precompiles to a map.
-func (ps precompiles) toMap(ctx context.Context) map[common.Address]vm.PrecompiledContract {
+// toMap converts the precompiles to a map. The precompiles operate on the current
+// snapshot of the given stateDB.
+func (ps precompiles) toMap(stateDB *evmstate.StateDB) map[common.Address]vm.PrecompiledContract {
 	m := make(map[common.Address]vm.PrecompiledContract)
 	for _, p := range ps {
-		m[p.addr] = p.contract.(types.WithContext).WithContext(ctx)
+		m[p.addr] = snapshotPrecompile{PrecompiledContract: p.contract, stateDB: stateDB}
 	}
 
 	return m
 }
 
+// snapshotPrecompile runs the precompiled contract with the context of the current
+// snapshot of the stateDB, so that its effects follow the call frame.
+type snapshotPrecompile struct {
+	vm.PrecompiledContract
+
+	stateDB *evmstate.StateDB
+}
+
+// ExtendedRun implements vm.ExtendedPrecompiledContract.
+func (p snapshotPrecompile) ExtendedRun(caller vm.ContractRef, input []byte, suppliedGas uint64, readOnly bool) ([]byte, uint64, error) {
+	contract := p.PrecompiledContract.(types.WithContext).WithContext(p.stateDB.Context())
+	return contract.(vm.ExtendedPrecompiledContract).ExtendedRun(caller, input, suppliedGas, readOnly)
+}
+
 func (ps precompiles) toAddrs() []common.Address {
 	addrs := make([]common.Address, len(ps))
 	for i, p := range ps {
diff --git a/x/evm/state/snapshot.go b/x/evm/state/snapshot.go
index de8f266..add50f7 100644
--- a/x/evm/state/snapshot.go
+++ b/x/evm/state/snapshot.go
@@ -4,6 +4,8 @@ import (
 	"context"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
+
+	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
 type Snapshot struct {
@@ -14,6 +16,20 @@ type Snapshot struct {
 func NewSnapshot(ctx context.Context) *Snapshot {
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 	cacheCtx, commit := sdkCtx.CacheContext()
+
+	// the cosmos messages collected by the precompile belong to the snapshot,
+	// so that they are dropped when the snapshot is reverted
+	if messages, ok := sdkCtx.Value(evmtypes.CONTEXT_KEY_COSMOS_MESSAGES).(*[]sdk.Msg); ok {
+		cacheMessages := append([]sdk.Msg{}, *messages...)
+		cacheCtx = cacheCtx.WithValue(evmtypes.CONTEXT_KEY_COSMOS_MESSAGES, &cacheMessages)
+
+		writeCache := commit
+		commit = func() {
+			writeCache()
+			*messages = cacheMessages
+		}
+	}
+
 	return &Snapshot{
 		ctx:    cacheCtx,
 		commit: commit,
diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 73921cd..5720e82 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -118,6 +118,11 @@ func NewStateDB(
 	return s, nil
 }
 
+// Context returns the context of the current snapshot.
+func (s *StateDB) Context() sdk.Context {
+	return s.ctx
+}
+
 // AddBalance mint coins to the recipient
 func (s *StateDB) AddBalance(addr common.Address, amount *uint256.Int, _ tracing.BalanceChangeReason) {
 	if amount.IsZero() {
-- 
2.43.0


From 3710e413fec30801c3d82898a7735212f680779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 05/19] fix: decode cosmos queries of the EVM into fresh
 messages

The request and response messages of the whitelist are shared by all queries. A failed
decoding left fields in them, which became part of the next query.
---
 x/evm/types/query_cosmos.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/x/evm/types/query_cosmos.go b/x/evm/types/query_cosmos.go
index 86210ec..a168abf 100644
--- a/x/evm/types/query_cosmos.go
+++ b/x/evm/types/query_cosmos.go
@@ -1,6 +1,8 @@
 package types
 
 import (
+	"reflect"
+
 	"github.com/cosmos/cosmos-sdk/codec"
 	proto "github.com/cosmos/gogoproto/proto"
 
@@ -32,8 +34,16 @@ func DefaultQueryCosmosWhitelist() QueryCosmosWhitelist {
 	return res
 }
 
+// newMessage returns an empty message of the same type. The messages of the whitelist are
+// shared, so they must not be decoded into: a failed decoding leaves fields behind.
+func newMessage(msg proto.Message) proto.Message {
+	return reflect.New(reflect.TypeOf(msg).Elem()).Interface().(proto.Message)
+}
+
 // ConvertProtoToJSON unmarshal the given bytes into a proto message and then marshals it to json.
 func ConvertProtoToJSON(cdc codec.Codec, protoResponse proto.Message, bz []byte) ([]byte, error) {
+	protoResponse = newMessage(protoResponse)
+
 	// unmarshal binary into stargate response data structure
 	err := cdc.Unmarshal(bz, protoResponse)
 	if err != nil {
@@ -45,11 +55,12 @@ func ConvertProtoToJSON(cdc codec.Codec, protoResponse proto.Message, bz []byte)
 		return nil, err
 	}
 
-	protoResponse.Reset()
 	return bz, nil
 }
 
 func ConvertJSONToProto(cdc codec.Codec, protoRequest proto.Message, bz []byte) ([]byte, error) {
+	protoRequest = newMessage(protoRequest)
+
 	// unmarshal binary into stargate response data structure
 	err := cdc.UnmarshalJSON(bz, protoRequest)
 	if err != nil {
@@ -61,6 +72,5 @@ func ConvertJSONToProto(cdc codec.Codec, protoRequest proto.Message, bz []byte)
 		return nil, err
 	}
 
-	protoRequest.Reset()
 	return bz, nil
 }
-- 
2.43.0


From d19c1db68b8b154678142b5f6c740083c2035964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:13 +0000
Subject: [PATCH 06/19] fix: accept an ethereum fee only if it is the one the
 signed gas price and gas limit give

---
 x/evm/keeper/txutils.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index 81d526a..7a95621 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -271,6 +271,13 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		return nil, nil, err
 	}
 
+	// The signature covers the fee only through the gas fee cap and the gas limit,
+	// so the fee has to be the one computed from them.
+	gasFeeAmount := computeGasFeeAmount(gasFeeCap, gas, decimals)
+	if len(fees) > 1 || fees.AmountOf(params.FeeDenom).BigInt().Cmp(gasFeeAmount) != 0 {
+		return nil, nil, nil
+	}
+
 	var to *common.Address
 	var input []byte
 	var value *big.Int
-- 
2.43.0


From 4a4db8c4471e8143560a2b4a791e9d501fe97990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:20 +0000
Subject: [PATCH 07/19] fix: refuse to convert messages without an ethereum
 form

---
 x/evm/keeper/txutils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index 7a95621..d4657cc 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -315,8 +315,8 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		// Same as above (MsgCall)
 		value = types.ToEthersUint(decimals, createMsg.Value.BigInt())
 		accessList = types.ConvertCosmosAccessListToEth(createMsg.AccessList)
-	case "/minievm.evm.v1.MsgCreate2":
-		// create2 is not supported
+	default:
+		// other messages, create2 among them, have no ethereum form
 		return nil, nil, nil
 	}
 
-- 
2.43.0


From 2d62918b406da2ffc75e878ecdbe8727cf734737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:06 +0000
Subject: [PATCH 08/19] fix: raise the sequence of a shorthand account after a
 contract creation

---
 x/evm/keeper/msg_server.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 26dffd4..6967015 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 
+	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/common/hexutil"
 	"github.com/ethereum/go-ethereum/core/tracing"
 	"github.com/holiman/uint256"
@@ -70,6 +71,14 @@ func (ms *msgServerImpl) Create(ctx context.Context, msg *types.MsgCreate) (*typ
 		}
 	}
 
+	// evm increases the nonce of the caller, which is not the signer's when the
+	// signer has a long address and acts through its shorthand account.
+	if len(sender) != common.AddressLength {
+		if err := ms.increaseNonce(ctx, sender); err != nil {
+			return nil, err
+		}
+	}
+
 	// deploy a contract
 	retBz, contractAddr, logs, err := ms.EVMCreate(ctx, caller, codeBz, value, accessList)
 	if err != nil {
@@ -129,6 +138,14 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 		}
 	}
 
+	// evm increases the nonce of the caller, which is not the signer's when the
+	// signer has a long address and acts through its shorthand account.
+	if len(sender) != common.AddressLength {
+		if err := ms.increaseNonce(ctx, sender); err != nil {
+			return nil, err
+		}
+	}
+
 	// deploy a contract
 	retBz, contractAddr, logs, err := ms.EVMCreate2(ctx, caller, codeBz, value, msg.Salt, accessList)
 	if err != nil {
-- 
2.43.0


From f2597e789985a02ec38d50f579c32bbcdf35d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:06 +0000
Subject: [PATCH 09/19] fix: meter the ante handlers after the gas free fee
 decorator

---
 app/ante/fee.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/ante/fee.go b/app/ante/fee.go
index 07d9d17..8725f74 100644
--- a/app/ante/fee.go
+++ b/app/ante/fee.go
@@ -55,7 +55,11 @@ func (fd GasFreeFeeDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bo
 
 	// If the fee contains only one denom and it is the fee denom, set the gas meter to infinite
 	// to avoid gas consumption for fee deduction.
+	//
+	// The rest of the ante chain runs on the original gas meter.
 	gasMeter := ctx.GasMeter()
-	ctx, err = fd.inner.AnteHandle(ctx.WithGasMeter(storetypes.NewInfiniteGasMeter()), tx, simulate, next)
+	ctx, err = fd.inner.AnteHandle(ctx.WithGasMeter(storetypes.NewInfiniteGasMeter()), tx, simulate, func(ctx sdk.Context, tx sdk.Tx, simulate bool) (sdk.Context, error) {
+		return next(ctx.WithGasMeter(gasMeter), tx, simulate)
+	})
 	return ctx.WithGasMeter(gasMeter), err
 }
-- 
2.43.0


From ee434d71b9ed2300d75e76543ac9547a8eeac1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:06 +0000
Subject: [PATCH 10/19] fix: do not mint balances that the imported EVM state
 already holds

---
 x/bank/keeper/send.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/x/bank/keeper/send.go b/x/bank/keeper/send.go
index edb8944..32a4f4e 100644
--- a/x/bank/keeper/send.go
+++ b/x/bank/keeper/send.go
@@ -164,8 +164,26 @@ func (k EVMSendKeeper) SendCoins(ctx context.Context, fromAddr sdk.AccAddress, t
 
 // initBalances sets the balance (multiple coins) for an account by address.
 // An error is returned upon failure.
+//
+// The balances are part of the EVM state, so they are there already when the EVM
+// state was imported as well; mint only what is missing.
 func (k EVMSendKeeper) initBalances(ctx context.Context, addr sdk.AccAddress, balances sdk.Coins) error {
-	return k.ek.MintCoins(ctx, addr, balances)
+	missing := sdk.NewCoins()
+	for _, coin := range balances {
+		balance, err := k.ek.GetBalance(ctx, addr, coin.Denom)
+		if err != nil {
+			return err
+		}
+		if balance.GT(coin.Amount) {
+			return sdkerrors.ErrInvalidCoins.Wrapf("%s holds %s%s already, expected %s", addr, balance, coin.Denom, coin)
+		}
+		missing = missing.Add(coin.SubAmount(balance))
+	}
+	if missing.Empty() {
+		return nil
+	}
+
+	return k.ek.MintCoins(ctx, addr, missing)
 }
 
 // IsSendEnabledCoins checks the coins provided and returns an ErrSendDisabled
-- 
2.43.0


From 9690da590940adaa832ad94fc1c1326d541d4bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:06 +0000
Subject: [PATCH 11/19] fix: leave tokens without supply out of the exported
 bank genesis

---
 x/bank/keeper/genesis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/bank/keeper/genesis.go b/x/bank/keeper/genesis.go
index 46694df..8a360bd 100644
--- a/x/bank/keeper/genesis.go
+++ b/x/bank/keeper/genesis.go
@@ -51,6 +51,10 @@ func (k BaseKeeper) ExportGenesis(ctx context.Context) *types.GenesisState {
 		panic(fmt.Errorf("unable to fetch total supply %v", err))
 	}
 
+	// the paginated supply lists every token, while the genesis supply, which
+	// InitGenesis compares with the sum of the balances, has no zero coins.
+	totalSupply = sdk.Coins{}.Add(totalSupply...)
+
 	return types.NewGenesisState(
 		k.GetParams(ctx),
 		k.GetAccountsBalances(ctx),
-- 
2.43.0


From 1a74c4fbb414fc4834510f97ce3b05b85ff03226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:29 +0000
Subject: [PATCH 12/19] fix: export the balances of a long account once

---
 x/bank/keeper/view.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/bank/keeper/view.go b/x/bank/keeper/view.go
index c7fdd6f..3660737 100644
--- a/x/bank/keeper/view.go
+++ b/x/bank/keeper/view.go
@@ -11,6 +11,7 @@ import (
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	cosmoskeeper "github.com/cosmos/cosmos-sdk/x/bank/keeper"
 	"github.com/cosmos/cosmos-sdk/x/bank/types"
+	"github.com/ethereum/go-ethereum/common"
 
 	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
@@ -134,6 +135,13 @@ func (k EVMViewKeeper) IterateAccountBalances(ctx context.Context, addr sdk.AccA
 func (k EVMViewKeeper) IterateAllBalances(ctx context.Context, cb func(sdk.AccAddress, sdk.Coin) bool) {
 	k.ak.IterateAccounts(ctx, func(account sdk.AccountI) bool {
 		addr := account.GetAddress()
+
+		// a long address holds its balances at its shorthand address, whose
+		// account is listed as well.
+		if len(addr) != common.AddressLength {
+			return false
+		}
+
 		err := k.ek.IterateAccountBalances(ctx, addr, func(coin sdk.Coin) (bool, error) {
 			return cb(addr, coin), nil
 		})
-- 
2.43.0


From 7d3cdae4ef265aa2e2c7995b8442609e03a14035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:29 +0000
Subject: [PATCH 13/19] fix: do not charge gas for the gas refund

---
 app/posthandler/gasrefund.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/app/posthandler/gasrefund.go b/app/posthandler/gasrefund.go
index d056338..b5ffe6f 100644
--- a/app/posthandler/gasrefund.go
+++ b/app/posthandler/gasrefund.go
@@ -29,8 +29,12 @@ func NewGasRefundDecorator(ek EVMKeeper) sdk.PostDecorator {
 // PostHandle handles the gas refund logic for EVM transactions.
 func (erd *GasRefundDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate, success bool, next sdk.PostHandler) (newCtx sdk.Context, err error) {
 	if success && ctx.ExecMode() == sdk.ExecModeFinalize {
+		// Use infinite gas meter for the whole refund operation, so that a successful tx, which left
+		// almost no gas, does not fail with out of gas error here.
+		freeCtx := ctx.WithGasMeter(storetypes.NewInfiniteGasMeter())
+
 		// Conduct gas refund only for the successful EVM transactions
-		if ok, err := erd.ek.TxUtils().IsEthereumTx(ctx, tx); err != nil || !ok {
+		if ok, err := erd.ek.TxUtils().IsEthereumTx(freeCtx, tx); err != nil || !ok {
 			return next(ctx, tx, simulate, success)
 		}
 
@@ -43,7 +47,7 @@ func (erd *GasRefundDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate,
 		if value == nil {
 			return next(ctx, tx, simulate, success)
 		}
-		gasRefundRatio, err := erd.ek.GasRefundRatio(ctx)
+		gasRefundRatio, err := erd.ek.GasRefundRatio(freeCtx)
 		if err != nil {
 			return ctx, err
 		}
@@ -75,7 +79,7 @@ func (erd *GasRefundDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate,
 		// for now, we use infinite gas meter to prevent out of gas error or inconsistency between
 		// used gas and refunded gas.
 		feeCollectorAddr := authtypes.NewModuleAddress(authtypes.FeeCollectorName)
-		err = erd.ek.ERC20Keeper().SendCoins(ctx.WithGasMeter(storetypes.NewInfiniteGasMeter()), feeCollectorAddr, feePayer, coinsRefund)
+		err = erd.ek.ERC20Keeper().SendCoins(freeCtx, feeCollectorAddr, feePayer, coinsRefund)
 		if err != nil {
 			return ctx, err
 		}
-- 
2.43.0


From 3cd473ee02d601f905abd2f92ef94a97fd0c550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:29 +0000
Subject: [PATCH 14/19] fix: approve the hook's contract when its address is
 bech32

---
 app/ibc-hooks/receive.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index e4a9fd8..7b6160e 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -64,7 +64,11 @@ func (h EVMHooks) onRecvIcs20Packet(
 
 	msg.Sender = intermediateSender
 	localDenom := LocalDenom(packet, data.Denom)
-	_, err = h.approveERC20(ctx, intermediateSender, common.HexToAddress(msg.ContractAddr), localDenom, data.Amount)
+	contractAddr, err := evmtypes.ContractAddressFromString(h.ac, msg.ContractAddr)
+	if err != nil {
+		return newEmitErrorAcknowledgement(err)
+	}
+	_, err = h.approveERC20(ctx, intermediateSender, contractAddr, localDenom, data.Amount)
 	if err != nil {
 		return newEmitErrorAcknowledgement(err)
 	}
@@ -149,8 +153,12 @@ func (h EVMHooks) onRecvIcs721Packet(
 	// approve the transfer of the NFT to the contract
 	msg.Sender = intermediateSender
 	localClassId := LocalClassId(packet, data.ClassId)
+	contractAddr, err := evmtypes.ContractAddressFromString(h.ac, msg.ContractAddr)
+	if err != nil {
+		return newEmitErrorAcknowledgement(err)
+	}
 	for _, tokenId := range data.TokenIds {
-		_, err = h.approveERC721(ctx, intermediateSender, common.HexToAddress(msg.ContractAddr), localClassId, tokenId)
+		_, err = h.approveERC721(ctx, intermediateSender, contractAddr, localClassId, tokenId)
 		if err != nil {
 			return newEmitErrorAcknowledgement(err)
 		}
-- 
2.43.0


From fb8734fe94fdc6d403f1997dcc19c91d538b595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:29 +0000
Subject: [PATCH 15/19] fix: allow hooks with tokens and collections of
 contracts

---
 app/ibc-hooks/receive.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index 7b6160e..766c93b 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -92,7 +92,7 @@ func (h EVMHooks) approveERC20(ctx sdk.Context, intermediateSender string, contr
 		return nil, err
 	}
 
-	erc20Addr, err := h.evmKeeper.GetContractAddrByDenom(ctx, denom)
+	erc20Addr, err := evmtypes.DenomToContractAddr(ctx, h.evmKeeper, denom)
 	if err != nil {
 		return nil, err
 	}
@@ -188,7 +188,7 @@ func (h EVMHooks) approveERC721(ctx sdk.Context, intermediateSender string, cont
 		return nil, err
 	}
 
-	erc721Addr, err := h.evmKeeper.GetContractAddrByClassId(ctx, classId)
+	erc721Addr, err := evmtypes.ContractAddressFromClassId(ctx, h.evmKeeper, classId)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 44b1dd56bb715ca19ce01e13e85686ec517a72a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:29 +0000
Subject: [PATCH 16/19] fix: keep the exact callback id of an IBC hook

---
 app/ibc-hooks/util.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/util.go b/app/ibc-hooks/util.go
index c589804..5329601 100644
--- a/app/ibc-hooks/util.go
+++ b/app/ibc-hooks/util.go
@@ -97,8 +97,11 @@ func jsonStringHasKey(memo, key string) (found bool, jsonObject map[string]inter
 	}
 
 	// the jsonObject must be a valid JSON object
-	err := json.Unmarshal([]byte(memo), &jsonObject)
-	if err != nil {
+	// numbers are kept as they are written; callback ids do not fit in a float64
+	decoder := json.NewDecoder(strings.NewReader(memo))
+	decoder.UseNumber()
+	err := decoder.Decode(&jsonObject)
+	if err != nil || !json.Valid([]byte(memo)) {
 		return false, jsonObject
 	}
 
-- 
2.43.0


From 258e7968bb4d316eb199462ab0f8850337bdc311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:08 +0000
Subject: [PATCH 17/19] fix: the supply of an unknown denomination is zero

---
 x/evm/keeper/erc20.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index 7ef9ad7..a078ec2 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -220,7 +220,9 @@ func (k ERC20Keeper) GetPaginatedSupply(ctx context.Context, pageReq *query.Page
 // GetSupply implements IERC20Keeper.
 func (k ERC20Keeper) GetSupply(ctx context.Context, denom string) (math.Int, error) {
 	contractAddr, err := types.DenomToContractAddr(ctx, k, denom)
-	if err != nil {
+	if err != nil && errors.Is(err, collections.ErrNotFound) {
+		return math.ZeroInt(), nil
+	} else if err != nil {
 		return math.ZeroInt(), err
 	}
 
-- 
2.43.0


From 5501bc0a5e5be66c3e3aa94115fa26064e1fc2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:08 +0000
Subject: [PATCH 18/19] fix: answer metadata of tokens by query string too

---
 x/bank/keeper/grpc_query.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/bank/keeper/grpc_query.go b/x/bank/keeper/grpc_query.go
index 4b9b414..d771590 100644
--- a/x/bank/keeper/grpc_query.go
+++ b/x/bank/keeper/grpc_query.go
@@ -216,7 +216,13 @@ func (k BaseKeeper) DenomMetadataByQueryString(c context.Context, req *types.Que
 
 	metadata, found := k.GetDenomMetaData(ctx, req.Denom)
 	if !found {
-		return nil, status.Errorf(codes.NotFound, "client metadata for denom %s", req.Denom)
+		var err error
+		metadata, err = k.ek.GetMetadata(ctx, req.Denom)
+		if errors.Is(err, collections.ErrNotFound) {
+			return nil, status.Errorf(codes.NotFound, "client metadata for denom %s", req.Denom)
+		} else if err != nil {
+			return nil, status.Error(codes.Internal, err.Error())
+		}
 	}
 
 	return &types.QueryDenomMetadataByQueryStringResponse{
-- 
2.43.0


From 72cd151a6024164eb7752f87da5219e9607c9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:02 +0000
Subject: [PATCH 19/19] fix: refuse token ids that a uint256 cannot hold

---
 x/evm/types/collection.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/evm/types/collection.go b/x/evm/types/collection.go
index 99a6a61..64df14d 100644
--- a/x/evm/types/collection.go
+++ b/x/evm/types/collection.go
@@ -27,7 +27,13 @@ func TokenIdToBigInt(classId string, tokenId string) (*big.Int, bool) {
 		hash.Write([]byte(tokenId))
 		return new(big.Int).SetBytes(hash.Sum(nil)), true
 	}
-	return new(big.Int).SetString(tokenId, 10)
+
+	intTokenId, ok := new(big.Int).SetString(tokenId, 10)
+	if !ok || intTokenId.Sign() < 0 || intTokenId.BitLen() > 256 {
+		// a uint256 cannot hold it; encoding it would name another token
+		return nil, false
+	}
+	return intTokenId, true
 }
 
 func ContractAddressFromClassId(ctx context.Context, k ERC721ClassIdKeeper, classId string) (common.Address, error) {
-- 
2.43.0

