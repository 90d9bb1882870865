package verifk

import (
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	rt "github.com/initia-labs/minievm/internal/verifrt"
)

// ZV_StorageMap: a history of storage writes by two accounts behaves as
// independent maps, within the transaction and after it.
func ZV_StorageMap() {
	e := NewInit()
	a := [2]common.Address{Addr("addrA"), Addr("addrB")}
	rt.Assume(a[0] != a[1])
	s := [2]common.Hash{Hash("slot0"), Hash("slot1")}
	var pre [2]common.Hash
	_, _, db := e.EVM(a[0])
	for i := range a {
		db.CreateContract(a[i])
		pre[i] = Hash("pre")
		db.SetState(a[i], s[0], pre[i])
	}
	if err := db.Commit(); err != nil {
		rt.Assert(false, "commit error")
		return
	}

	type w struct {
		acc, slot int
		v         common.Hash
	}
	hist := []w{{0, 0, pre[0]}, {1, 0, pre[1]}}
	last := func(acc int, slot common.Hash) common.Hash {
		for i := len(hist) - 1; i >= 0; i-- {
			if hist[i].acc == acc && s[hist[i].slot] == slot {
				return hist[i].v
			}
		}
		return common.Hash{}
	}
	_, _, db = e.EVM(a[0])
	db.Snapshot() // code only runs inside a frame
	n := rt.Bound("ops", 2, 3)
	for i := 0; i < n; i++ {
		acc := rt.Choice("acc", 2)
		k := rt.Choice("slot", 2)
		v := Hash("val")
		db.SetState(a[acc], s[k], v)
		hist = append(hist, w{acc, k, v})
	}
	check := func(when string) {
		for i := range a {
			for j := range s {
				rt.Assert(db.GetState(a[i], s[j]) == last(i, s[j]), when+": storage")
			}
		}
	}
	check("in the transaction")
	for i := range a {
		want := common.Hash{}
		if s[1] == s[0] {
			want = pre[i]
		}
		rt.Assert(db.GetCommittedState(a[i], s[0]) == pre[i], "committed storage")
		rt.Assert(db.GetCommittedState(a[i], s[1]) == want, "committed storage of another slot")
	}
	// a frame in between changes nothing about the committed value
	id := db.Snapshot()
	v := Hash("inner")
	db.SetState(a[0], s[0], v)
	rt.Assert(db.GetCommittedState(a[0], s[0]) == pre[0], "committed storage inside a frame")
	if rt.Choice("revert", 2) == 1 {
		db.RevertToSnapshot(id)
	} else {
		hist = append(hist, w{0, 0, v})
	}
	if rt.Choice("commit", 2) == 0 {
		_, _, db = e.EVM(a[1])
		hist = hist[:2]
		rt.Reach("dropped transaction")
		check("after a transaction that was not committed")
		return
	}
	if err := db.Commit(); err != nil {
		rt.Assert(false, "commit error")
		return
	}
	_, _, db = e.EVM(a[1])
	rt.Reach("second transaction")
	check("in the next transaction")
	rt.Assert(db.GetCommittedState(a[0], s[0]) == last(0, s[0]), "committed storage of the next transaction")
}

// ZV_CodeNonce: code and nonces of two accounts are independent maps too.
func ZV_CodeNonce() {
	e := NewInit()
	a := [2]common.Address{Addr("addrA"), Addr("addrB")}
	rt.Assume(a[0] != a[1])
	slot, v := Hash("slot"), Hash("v")
	_, _, db := e.EVM(a[0])
	for i := range a {
		db.CreateContract(a[i])
	}
	db.SetState(a[0], slot, v)
	var nonce [2]uint64
	var code [2][]byte
	n := rt.Bound("ops", 2, 4)
	for i := 0; i < n; i++ {
		acc := rt.Choice("acc", 2)
		switch rt.Choice("op", 2) {
		case 0:
			x := rt.U64("nonce")
			db.SetNonce(a[acc], x)
			nonce[acc] = x
		case 1:
			c := rt.Bytes("code", 1+2*rt.Choice("len", 2))
			db.SetCode(a[acc], c)
			code[acc] = c
		}
	}
	check := func(when string) {
		for i := range a {
			rt.Assert(db.GetNonce(a[i]) == nonce[i], when+": nonce")
			rt.Assert(string(db.GetCode(a[i])) == string(code[i]), when+": code")
			rt.Assert(db.GetCodeSize(a[i]) == len(code[i]), when+": code size")
			if code[i] != nil {
				rt.Assert(db.GetCodeHash(a[i]) == crypto.Keccak256Hash(code[i]), when+": code hash")
			}
		}
		rt.Assert(db.GetState(a[0], slot) == v, when+": storage")
		rt.Assert(db.GetState(a[1], slot) == common.Hash{}, when+": storage of the other account")
	}
	check("in the transaction")
	if err := db.Commit(); err != nil {
		rt.Assert(false, "commit error")
		return
	}
	_, _, db = e.EVM(a[1])
	rt.Reach("second transaction")
	check("in the next transaction")
}

// ZV_TransientPrivate: transient storage is per contract and per transaction.
func ZV_TransientPrivate() {
	e := NewInit()
	a := [2]common.Address{Addr("addrA"), Addr("addrB")}
	rt.Assume(a[0] != a[1])
	s := [2]common.Hash{Hash("slot0"), Hash("slot1")}
	_, _, db := e.EVM(a[0])
	type w struct {
		acc, slot int
		v         common.Hash
	}
	var hist []w
	last := func(acc int, slot common.Hash) common.Hash {
		for i := len(hist) - 1; i >= 0; i-- {
			if hist[i].acc == acc && s[hist[i].slot] == slot {
				return hist[i].v
			}
		}
		return common.Hash{}
	}
	check := func(when string) {
		for i := range a {
			for j := range s {
				rt.Assert(db.GetTransientState(a[i], s[j]) == last(i, s[j]), when+": transient storage")
				rt.Assert(db.GetState(a[i], s[j]) == common.Hash{}, when+": persistent storage untouched")
			}
		}
	}
	n := rt.Bound("ops", 2, 3)
	mark := -1
	id := 0
	for i := 0; i < n; i++ {
		acc, k := rt.Choice("acc", 2), rt.Choice("slot", 2)
		v := Hash("val")
		db.SetTransientState(a[acc], s[k], v)
		hist = append(hist, w{acc, k, v})
		check("after a write")
		if i == 0 {
			id, mark = db.Snapshot(), len(hist)
		}
	}
	if rt.Choice("revert", 2) == 1 {
		db.RevertToSnapshot(id)
		hist = hist[:mark]
		rt.Reach("revert")
	}
	check("at the end")
	if err := db.Commit(); err != nil {
		rt.Assert(false, "commit error")
		return
	}
	_, _, db = e.EVM(a[1])
	hist = nil
	rt.Reach("next transaction")
	check("in the next transaction")
}
