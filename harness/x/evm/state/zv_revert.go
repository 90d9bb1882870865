package state

import (
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"

	ve "github.com/initia-labs/minievm/internal/verifenv"
	rt "github.com/initia-labs/minievm/internal/verifrt"
)

type zvWrite struct {
	kind int // 0 storage 1 nonce 2 transient 3 log 4 refund 5 access list slot
	addr int
	slot int
	val  common.Hash
	n    uint64
}

type zvRev struct {
	db    *StateDB
	addrs [2]common.Address
	slots [2]common.Hash
	spec  []zvWrite
	init  map[int]common.Hash
	cnt   int
}

func zvName(p string, n int) string { return p + string(rune('a'+n)) }

// a bundle of writes of every kind, all data symbolic
func (z *zvRev) bundle() {
	i := z.cnt
	z.cnt++
	a := i % 2
	s := (i / 2) % 2
	v := common.BytesToHash(rt.Bytes(zvName("val", i), 32))
	z.db.SetState(z.addrs[a], z.slots[s], v)
	z.spec = append(z.spec, zvWrite{kind: 0, addr: a, slot: s, val: v})
	n := rt.U64(zvName("nonce", i))
	z.db.SetNonce(z.addrs[a], n)
	z.spec = append(z.spec, zvWrite{kind: 1, addr: a, n: n})
	tv := common.BytesToHash(rt.Bytes(zvName("tval", i), 32))
	z.db.SetTransientState(z.addrs[0], z.slots[s], tv)
	z.spec = append(z.spec, zvWrite{kind: 2, addr: 0, slot: s, val: tv})
	d := rt.Bytes(zvName("log", i), 2)
	z.db.AddLog(&types.Log{Address: z.addrs[a], Topics: []common.Hash{v}, Data: d})
	z.spec = append(z.spec, zvWrite{kind: 3, addr: a, val: common.BytesToHash(d)})
	g := uint64(rt.U32(zvName("refund", i)))
	z.db.AddRefund(g)
	z.spec = append(z.spec, zvWrite{kind: 4, n: g})
	if i%2 == 1 {
		z.db.AddSlotToAccessList(z.addrs[a], z.slots[s])
		z.spec = append(z.spec, zvWrite{kind: 5, addr: a, slot: s})
	}
}

func (z *zvRev) hashOf(kind, a, s int) common.Hash {
	for i := len(z.spec) - 1; i >= 0; i-- {
		w := z.spec[i]
		if w.kind == kind && w.addr == a && z.slots[w.slot] == z.slots[s] {
			return w.val
		}
	}
	return common.Hash{}
}

func (z *zvRev) check(when string) {
	for a := 0; a < 2; a++ {
		exists := false
		nonce := uint64(0)
		for _, w := range z.spec {
			if w.kind == 1 && w.addr == a {
				exists = true
				nonce = w.n
			}
		}
		rt.Assert(z.db.Exist(z.addrs[a]) == exists, when+": account existence")
		rt.Assert(z.db.GetNonce(z.addrs[a]) == nonce, when+": nonce")
		for s := 0; s < 2; s++ {
			rt.Assert(z.db.GetState(z.addrs[a], z.slots[s]) == z.hashOf(0, a, s), when+": storage")
		}
	}
	for s := 0; s < 2; s++ {
		rt.Assert(z.db.GetTransientState(z.addrs[0], z.slots[s]) == z.hashOf(2, 0, s), when+": transient storage")
		for a := 0; a < 2; a++ {
			_, ok := z.db.SlotInAccessList(z.addrs[a], z.slots[s])
			want := false
			for _, w := range z.spec {
				if w.kind == 5 && w.addr == a && z.slots[w.slot] == z.slots[s] {
					want = true
				}
			}
			rt.Assert(ok == want, when+": access list")
		}
	}
	var logs []zvWrite
	refund := uint64(0)
	for _, w := range z.spec {
		if w.kind == 3 {
			logs = append(logs, w)
		}
		if w.kind == 4 {
			refund += w.n
		}
	}
	rt.Assert(z.db.GetRefund() == refund, when+": refund counter")
	got := z.db.Logs().ToEthLogs()
	rt.Assert(len(got) == len(logs), when+": number of logs")
	if len(got) == len(logs) {
		for i := range got {
			rt.Assert(got[i].Address == z.addrs[logs[i].addr], when+": log address")
			rt.Assert(common.BytesToHash(got[i].Data) == logs[i].val, when+": log data")
		}
	}
}

func (z *zvRev) frame(level, max int) {
	z.bundle()
	if level >= max {
		return
	}
	kids := rt.Choice("kids", 3)
	for i := 0; i < kids; i++ {
		id := z.db.Snapshot()
		mark := len(z.spec)
		z.frame(level+1, max)
		if rt.Choice("revert", 2) == 1 {
			z.db.RevertToSnapshot(id)
			z.spec = z.spec[:mark]
			rt.Reach("revert")
			z.check("after revert")
		}
		z.bundle()
	}
}

// ZV_NestedRevert: frames nested up to depth with every keep/revert pattern.
func ZV_NestedRevert() {
	st := zvNewStores()
	ctx := ve.NewCtx()
	z := &zvRev{db: st.db(ctx)}
	z.addrs[0] = common.HexToAddress("0x1111111111111111111111111111111111111111")
	z.addrs[1] = common.HexToAddress("0x2222222222222222222222222222222222222222")
	z.slots[0] = common.BytesToHash(rt.Bytes("slot0", 32))
	z.slots[1] = common.BytesToHash(rt.Bytes("slot1", 32))
	id := z.db.Snapshot()
	z.frame(1, rt.Bound("depth", 2, 3))
	if rt.Choice("outer-revert", 2) == 1 {
		z.db.RevertToSnapshot(id)
		z.spec = nil
		z.check("after outer revert")
	}
	z.check("before commit")
	if err := z.db.Commit(); err != nil {
		rt.Assert(false, "commit error")
		return
	}
	rt.Reach("commit")
	z.check("after commit")
	_ = big.NewInt
}
