set -x
cd /repo
git checkout -q -- .
pre='package state_test

import (
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/holiman/uint256"
	"github.com/stretchr/testify/require"

	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/initia-labs/minievm/x/evm/state"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

var _ = common.Hash{}
var _ = tracing.BalanceChangeUnspecified
var _ = uint256.NewInt
var _ = sdk.NewInt64Coin
var _ = authtypes.NewBaseAccountWithAddress
var _ = require.New
var _ state.StateDB
var _ = evmtypes.StdAddress

func newDB(t *testing.T, ctx sdk.Context, in TestKeepers) *state.StateDB {
	_, evm, err := in.EVMKeeper.CreateEVM(ctx, evmtypes.StdAddress, nil)
	require.NoError(t, err)
	return evm.StateDB.(*state.StateDB)
}
'
# 1: E04 late funds of a destroyed contract survive
python3 - <<'E'
p='x/evm/state/statedb.go';s=open(p).read()
s=s.replace("""		if bal := s.GetBalance(addr); bal.Sign() != 0 {
			s.SubBalance(addr, bal, tracing.BalanceDecreaseSelfdestructBurn)
		}

		err = s.vmStore.Clear""","""		if bal := s.GetBalance(addr); bal.Sign() != 0 && s.GetNonce(addr) == 0 {
			s.SubBalance(addr, bal, tracing.BalanceDecreaseSelfdestructBurn)
		}

		err = s.vmStore.Clear""")
open(p,'w').write(s)
E
echo "$pre"'
func TestDemo(t *testing.T) {
	ctx, in := createDefaultTestInput(t)
	denom, err := in.EVMKeeper.GetFeeDenom(ctx)
	require.NoError(t, err)
	_, _, a := keyPubAddr()
	addr := common.BytesToAddress(a)
	in.Faucet.Mint(ctx, a, sdk.NewInt64Coin(denom, 7))
	db := newDB(t, ctx, in)
	db.Snapshot()
	db.CreateContract(addr)
	db.SetNonce(addr, 1)
	db.SetCode(addr, []byte{1})
	db.Selfdestruct6780(addr)
	db.AddBalance(addr, uint256.NewInt(5), tracing.BalanceChangeUnspecified)
	require.NoError(t, db.Commit())
	require.True(t, in.BankKeeper.GetBalance(ctx, a, denom).IsZero())
}' > /tmp/demo_test.go
/verif/tools/mkseed.sh s01 E04 x/evm/state "value sent to a contract after its self-destruct in the creating transaction, with nonce 1 as the EVM sets it" "balance of a destroyed contract survives its deletion"
# 2: E02 write back of the committed value is skipped
python3 - <<'E'
p='x/evm/state/statedb.go';s=open(p).read()
s=s.replace("""func (s *StateDB) SetState(addr common.Address, slot common.Hash, value common.Hash) {
""","""func (s *StateDB) SetState(addr common.Address, slot common.Hash, value common.Hash) {
	// no need to write a value that is already committed
	if (value != common.Hash{}) && s.GetCommittedState(addr, slot) == value {
		return
	}

""")
open(p,'w').write(s)
E
echo "$pre"'
func TestDemo(t *testing.T) {
	ctx, in := createDefaultTestInput(t)
	_, _, a := keyPubAddr()
	addr := common.BytesToAddress(a)
	in.AccountKeeper.SetAccount(ctx, in.AccountKeeper.NewAccountWithAddress(ctx, a))
	k := common.Hash{1}
	db := newDB(t, ctx, in)
	db.Snapshot()
	db.SetState(addr, k, common.Hash{2})
	require.NoError(t, db.Commit())
	db = newDB(t, ctx, in)
	db.Snapshot()
	db.SetState(addr, k, common.Hash{3})
	db.SetState(addr, k, common.Hash{2})
	require.Equal(t, common.Hash{2}, db.GetState(addr, k))
}' > /tmp/demo_test.go
/verif/tools/mkseed.sh s02 E02 x/evm/state "a slot is changed and then restored to its committed value within one transaction" "the restoring write is dropped"
# 3: E05 shorthand account counts as empty
python3 - <<'E'
p='x/evm/types/auth.go';s=open(p).read()
s=s.replace("	return !isModuleAccount && !isShorthandAccount && !isContractAccount && account","	if isShorthandAccount && account.GetSequence() == 0 {\n		return true\n	}\n\n	return !isModuleAccount && !isShorthandAccount && !isContractAccount && account")
open(p,'w').write(s)
E
echo "$pre"'
func TestDemo(t *testing.T) {
	ctx, in := createDefaultTestInput(t)
	long := make([]byte, 32)
	long[31] = 9
	long[0] = 1
	long[12] = 0x44
	sh, err := evmtypes.NewShorthandAccountWithAddress(in.AccountKeeper.AddressCodec(), long)
	require.NoError(t, err)
	require.NoError(t, sh.SetAccountNumber(in.AccountKeeper.NextAccountNumber(ctx)))
	in.AccountKeeper.SetAccount(ctx, sh)
	require.False(t, evmtypes.IsEmptyAccount(sh))
	db := newDB(t, ctx, in)
	require.Panics(t, func() { db.CreateContract(common.BytesToAddress(long[12:])) })
}' > /tmp/demo_test.go
/verif/tools/mkseed.sh s03 E05 x/evm/state "the address of a new contract is the short form of a registered 32-byte account" "the 32-byte account's short account is replaced by a contract"
