package verifk

import (
	"errors"
	"math/big"

	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"

	rt "github.com/initia-labs/minievm/internal/verifrt"
	"github.com/initia-labs/minievm/x/evm/types"
)

// initcode storing 42 in slot 0 and returning the one byte runtime code 0x00
var initCode = common.FromHex("602a600055600060005360016000f3")

// ZV_CreateCollision: a contract is created at its address only when nothing
// lives there, and whatever lives there is never altered.
func ZV_CreateCollision() {
	e := NewInit()
	mode := rt.Choice("mode", 3) // CREATE, CREATE2, the state interface itself
	two := mode == 1
	caller := Alice
	const salt = uint64(7) // the target address is a hash of it: kept concrete
	s32 := uint256.NewInt(salt).Bytes32()
	target := crypto.CreateAddress(caller, 0)
	if two {
		target = crypto.CreateAddress2(caller, s32, crypto.Keccak256(initCode))
	}
	bal := rt.U64("prefund")
	e.Mint(target, FeeDenom, new(big.Int).SetUint64(bal))

	kind := rt.Choice("occupant", 8)
	base := authtypes.NewBaseAccountWithAddress(target.Bytes())
	accNum := uint64(rt.U8("accnum"))
	base.AccountNumber = accNum
	empty := false
	nonce := uint64(0)
	var code []byte
	slot, val := Hash("slot"), Hash("val")
	storage := false
	var before sdk.AccountI
	switch kind {
	case 0: // nothing (minting may have left a fresh account)
		empty = true
		if a := e.AK.GetAccount(e.Ctx, target.Bytes()); a != nil {
			accNum = a.GetAccountNumber()
			before = a
		}
	case 1: // account that may have signed
		nonce = rt.U64("nonce")
		base.Sequence = nonce
		before = base
		empty = nonce == 0
	case 2: // account with a public key
		base.PubKey = codectypes.UnsafePackAny(&secp256k1.PubKey{Key: make([]byte, 33)})
		before = base
	case 3:
		before = authtypes.NewModuleAccount(base, "mod")
	case 4: // contract with code
		code = rt.Bytes("code", 2)
	case 5: // contract account without code
		c := types.NewContractAccountWithAddress(target.Bytes())
		c.BaseAccount = base
		before = c
	case 6: // shorthand account of a long address
		sh, err := types.NewShorthandAccountWithAddress(AC{}, append(make([]byte, 12), target.Bytes()...))
		if err != nil {
			panic(err)
		}
		sh.BaseAccount = base
		before = sh
	case 7: // leftover storage
		storage = true
	}
	switch {
	case kind == 4:
		e.Deploy(target, code)
		nonce = 1
		before = e.AK.GetAccount(e.Ctx, target.Bytes())
	case before != nil && kind != 0:
		e.AK.SetAccount(e.Ctx, before)
	case storage:
		_, _, db := e.EVM(caller)
		db.CreateAccount(target)
		db.SetState(target, slot, val)
		if err := db.Commit(); err != nil {
			panic(err)
		}
		before = e.AK.GetAccount(e.Ctx, target.Bytes())
	}
	if before != nil {
		accNum = before.GetAccountNumber()
	}
	cctx, write := e.Ctx.CacheContext()
	var got common.Address
	var err error
	if mode == 2 {
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = errors.New("refused")
				}
			}()
			_, db, cerr := e.StateDB(cctx, caller)
			if cerr != nil {
				err = cerr
				return
			}
			db.Snapshot()
			db.CreateContract(target)
			db.SetNonce(target, 1)
			db.SetCode(target, []byte{0})
			db.SetState(target, common.Hash{}, common.BytesToHash([]byte{42}))
			got = target
			err = db.Commit()
		}()
		empty = empty || kind == 7 // leftover storage is looked at by the EVM only
	} else if two {
		_, got, _, err = e.K.EVMCreate2(cctx, caller, initCode, nil, salt, nil)
	} else {
		_, got, _, err = e.K.EVMCreate(cctx, caller, initCode, nil, nil)
	}
	rt.Assert((err == nil) == empty, "created exactly when nothing lives at the address")
	if err == nil {
		write()
	}
	_, _, db := e.EVM(caller)
	after := e.AK.GetAccount(e.Ctx, target.Bytes())
	rt.Assert(BigEq(e.Bal(target, FeeDenom), new(big.Int).SetUint64(bal)), "balance at the address is kept")
	if err == nil {
		rt.Reach("created")
		rt.Assert(got == target, "contract address")
		rt.Assert(string(db.GetCode(target)) == "\x00", "deployed code")
		rt.Assert(db.GetState(target, common.Hash{}) == common.BytesToHash([]byte{42}), "constructor storage")
		rt.Assert(db.GetNonce(target) == 1, "nonce of the new contract")
		if _, ok := after.(*types.ContractAccount); !ok {
			rt.Assert(false, "contract account type")
		}
		if before != nil {
			rt.Assert(after.GetAccountNumber() == accNum, "account number is kept")
		}
		return
	}
	rt.Reach("refused")
	if after == nil {
		rt.Assert(false, "occupant disappeared")
		return
	}
	rt.Assert(after.GetSequence() == nonce, "occupant nonce")
	rt.Assert(after.GetAccountNumber() == before.GetAccountNumber(), "occupant account number")
	switch x := after.(type) {
	case *types.ContractAccount:
		rt.Assert(kind == 4 || kind == 5, "occupant type")
	case *types.ShorthandAccount:
		rt.Assert(kind == 6, "occupant type")
	case *authtypes.ModuleAccount:
		rt.Assert(kind == 3, "occupant type")
	case *authtypes.BaseAccount:
		rt.Assert(kind == 1 || kind == 2 || kind == 7, "occupant type")
		rt.Assert((x.PubKey != nil) == (kind == 2), "occupant key")
	}
	rt.Assert(string(db.GetCode(target)) == string(code), "occupant code")
	if storage {
		rt.Assert(db.GetState(target, slot) == val, "occupant storage")
	} else {
		rt.Assert(db.GetState(target, common.Hash{}) == common.Hash{}, "no constructor storage")
	}
}

// ZV_SelfDestructState: only a contract created in the same transaction is
// removed, together with its balance; others keep code, storage and account.
func ZV_SelfDestructState() {
	e := NewInit()
	old, fresh, other := Alice, Dave, Bob
	slot, slot2 := Hash("slot"), Hash("slot2")
	v := [3]common.Hash{Hash("v0"), Hash("v1"), Hash("v2")}
	code := rt.Bytes("code", 2)
	e.Deploy(old, code)
	e.Deploy(other, code)
	b := [3]uint64{1000, rt.U64("b1"), 3}
	all := [3]common.Address{old, fresh, other}
	for i, a := range all {
		e.Mint(a, FeeDenom, new(big.Int).SetUint64(b[i]))
	}
	supply := e.Supply(FeeDenom)
	_, _, db := e.EVM(Carol)
	db.Snapshot()
	db.SetState(old, slot, v[0])
	db.SetState(other, slot, v[2])
	db.CreateContract(fresh)
	db.SetNonce(fresh, 1)
	db.SetCode(fresh, code)
	db.SetState(fresh, slot, v[1])
	db.SetState(fresh, slot2, v[1])
	destroyed := [3]bool{}
	legacy := [3]bool{}
	for i := 0; i < 2; i++ {
		if rt.Choice("destroy", 2) == 0 {
			continue
		}
		id := db.Snapshot()
		db.Selfdestruct6780(all[i])
		rt.Assert(db.HasSelfDestructed(all[i]) == (i == 1), "self destruct mark")
		if rt.Choice("revert", 2) == 1 {
			db.RevertToSnapshot(id)
			rt.Reach("reverted")
			rt.Assert(!db.HasSelfDestructed(all[i]), "mark after revert")
			rt.Assert(BigEq(db.GetBalance(all[i]).ToBig(), new(big.Int).SetUint64(b[i])), "balance after revert")
			continue
		}
		if i == 1 {
			destroyed[1] = true
			rt.Assert(db.GetBalance(fresh).IsZero(), "balance of the destroyed contract")
			// still readable until the end of the transaction
			rt.Assert(string(db.GetCode(fresh)) == string(code), "code until the end of the transaction")
			rt.Assert(db.GetState(fresh, slot2) == v[1], "storage until the end of the transaction")
		} else {
			legacy[0] = true
		}
	}
	var late *uint256.Int
	if destroyed[1] && rt.Choice("late funds", 2) == 1 {
		late = uint256.NewInt(uint64(rt.U32("late")))
		db.AddBalance(fresh, late, tracing.BalanceChangeUnspecified)
	}
	if err := db.Commit(); err != nil {
		rt.Assert(false, "commit error")
		return
	}
	_, _, db = e.EVM(Carol)
	gone := big.NewInt(0)
	for i, a := range all {
		want := new(big.Int).SetUint64(b[i])
		if destroyed[i] {
			rt.Reach("removed")
			gone = new(big.Int).SetUint64(b[i])
			want = big.NewInt(0)
			rt.Assert(!db.Exist(a), "account of the destroyed contract is removed")
			rt.Assert(len(db.GetCode(a)) == 0 && db.GetCodeSize(a) == 0, "code of the destroyed contract is removed")
			rt.Assert(db.GetState(a, slot) == common.Hash{} && db.GetState(a, slot2) == common.Hash{}, "storage of the destroyed contract is removed")
			rt.Assert(db.GetStorageRoot(a) == common.Hash{}, "no storage left")
			db.CreateContract(a)
			rt.Assert(db.GetState(a, slot) == common.Hash{} && db.GetState(a, slot2) == common.Hash{}, "storage does not come back with a new contract")
		} else {
			rt.Assert(db.Exist(a), "account is kept")
			rt.Assert(string(db.GetCode(a)) == string(code), "code is kept")
			rt.Assert(db.GetState(a, slot) == v[i], "storage is kept")
			rt.Assert(db.GetNonce(a) == 1, "nonce is kept")
		}
		rt.Assert(BigEq(e.Bal(a, FeeDenom), want), "balance")
	}
	rt.Assert(BigEq(e.Supply(FeeDenom), new(big.Int).Sub(supply, gone)), "supply")
}

// ZV_SelfDestructEVM: the SELFDESTRUCT opcode, executed by the EVM.
func ZV_SelfDestructEVM() {
	e := NewInit()
	beneficiary := Bob
	x := rt.U64("balance")
	val := rt.U64("value")
	e.Mint(Alice, FeeDenom, new(big.Int).SetUint64(val))
	die := cat([]byte{0x73}, beneficiary.Bytes(), []byte{0xff})
	slot := Hash("slot")
	v := Hash("v")
	inConstructor := rt.Choice("constructor", 2) == 1
	target := Carol
	if inConstructor {
		target = crypto.CreateAddress(Alice, 0)
	} else {
		e.Deploy(target, die)
		_, _, db := e.EVM(Alice)
		db.SetState(target, slot, v)
		if err := db.Commit(); err != nil {
			panic(err)
		}
	}
	e.Mint(target, FeeDenom, new(big.Int).SetUint64(x))
	supply := e.Supply(FeeDenom)
	var err error
	if inConstructor {
		_, _, _, err = e.K.EVMCreate(e.Ctx, Alice, cat(common.FromHex("602a600055"), die), uint256.NewInt(val), nil)
	} else {
		_, _, err = e.K.EVMCall(e.Ctx, Alice, target, nil, uint256.NewInt(val), nil)
	}
	rt.Assert(err == nil, "self destruct transaction succeeds")
	if err != nil {
		return
	}
	total := new(big.Int).Add(new(big.Int).SetUint64(x), new(big.Int).SetUint64(val))
	rt.Assert(BigEq(e.Bal(beneficiary, FeeDenom), total), "beneficiary receives everything")
	rt.Assert(e.Bal(target, FeeDenom).Sign() == 0, "destroyed contract holds nothing")
	rt.Assert(BigEq(e.Supply(FeeDenom), supply), "supply is conserved")
	_, _, db := e.EVM(Alice)
	if inConstructor {
		rt.Reach("constructor")
		rt.Assert(!db.Exist(target), "contract destroyed in its own transaction does not exist")
		rt.Assert(db.GetState(target, common.Hash{}) == common.Hash{}, "its storage is gone")
	} else {
		rt.Reach("call")
		rt.Assert(string(db.GetCode(target)) == string(die), "older contract keeps its code")
		rt.Assert(db.GetState(target, slot) == v, "older contract keeps its storage")
	}
}
