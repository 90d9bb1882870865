// Package verifenv is the environment the harnesses run the real code in: an
// in-memory branching multistore, an account keeper over it and codecs. It is
// plain Go: the engine executes it symbolically, the replay natively.
package verifenv

import (
	"bytes"
	"context"
	"errors"
	"io"
	"sort"

	corestore "cosmossdk.io/core/store"
	"cosmossdk.io/log"
	storetypes "cosmossdk.io/store/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	"github.com/cosmos/cosmos-sdk/codec"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	gogoproto "github.com/cosmos/gogoproto/proto"
	protov2 "google.golang.org/protobuf/proto"
)

// ---- stores ----

const (
	StoreMain = iota
	StoreTransient
	StoreAccounts
	StoreBank
	StoreHooks
	numStores
)

type ent struct {
	v   []byte
	acc sdk.AccountI
	del bool
}

// layer is one branch of one store.
type layer struct {
	parent *layer
	m      map[string]ent
}

func (l *layer) get(k string) (ent, bool) {
	for x := l; x != nil; x = x.parent {
		if e, ok := x.m[k]; ok {
			return e, !e.del
		}
	}
	return ent{}, false
}

func (l *layer) keys() []string { return l.keysIn(nil, nil) }

func (l *layer) keysIn(start, end []byte) []string {
	seen := map[string]bool{}
	var out []string
	for x := l; x != nil; x = x.parent {
		for k, e := range x.m {
			b := []byte(k)
			if start != nil && bytes.Compare(b, start) < 0 {
				continue
			}
			if end != nil && bytes.Compare(b, end) >= 0 {
				continue
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			if !e.del {
				out = append(out, k)
			}
		}
	}
	sort.Strings(out)
	return out
}

func (l *layer) write() {
	for k, e := range l.m {
		l.parent.m[k] = e
	}
	l.m = map[string]ent{}
}

// MS is a branching multistore.
type MS struct {
	l      [numStores]*layer
	Events int
}

func NewMS() *MS {
	ms := &MS{}
	for i := range ms.l {
		ms.l[i] = &layer{m: map[string]ent{}}
	}
	return ms
}

func (s *MS) Branch() *MS {
	c := &MS{}
	for i := range c.l {
		c.l[i] = &layer{parent: s.l[i], m: map[string]ent{}}
	}
	return c
}

// Written counts what was set or deleted since the branch was made (but for transient stores).
func (s *MS) Written() (n int) {
	for i := range s.l {
		if i != StoreTransient {
			n += len(s.l[i].m)
		}
	}
	return
}

func (s *MS) Write() {
	for i := range s.l {
		s.l[i].write()
	}
}

func (s *MS) GetStoreType() storetypes.StoreType { return storetypes.StoreTypeMulti }
func (s *MS) CacheWrap() storetypes.CacheWrap    { return s.Branch() }
func (s *MS) CacheWrapWithTrace(io.Writer, storetypes.TraceContext) storetypes.CacheWrap {
	return s.Branch()
}
func (s *MS) CacheMultiStore() storetypes.CacheMultiStore { return s.Branch() }
func (s *MS) CacheMultiStoreWithVersion(int64) (storetypes.CacheMultiStore, error) {
	return nil, errors.New("unsupported")
}
func (s *MS) GetStore(storetypes.StoreKey) storetypes.Store                   { panic("unsupported") }
func (s *MS) GetKVStore(storetypes.StoreKey) storetypes.KVStore               { panic("unsupported") }
func (s *MS) TracingEnabled() bool                                            { return false }
func (s *MS) SetTracer(io.Writer) storetypes.MultiStore                       { return s }
func (s *MS) SetTracingContext(storetypes.TraceContext) storetypes.MultiStore { return s }
func (s *MS) LatestVersion() int64                                            { return 0 }

// KV is one store of a multistore.
type KV struct {
	l *layer
	// the gas meter that store operations are charged on, if any
	gas storetypes.GasMeter
}

// KVGas makes store operations cost gas (their flat price).
var KVGas bool

func Open(ctx context.Context, store int) *KV {
	c := sdk.UnwrapSDKContext(ctx)
	kv := &KV{l: c.MultiStore().(*MS).l[store]}
	if KVGas {
		kv.gas = c.GasMeter()
	}
	return kv
}

func (s *KV) charge(x uint64) {
	if s.gas != nil {
		s.gas.ConsumeGas(x, "store")
	}
}

func (s *KV) Get(key []byte) ([]byte, error) {
	s.charge(1000)
	e, ok := s.l.get(string(key))
	if !ok {
		return nil, nil
	}
	return e.v, nil
}
func (s *KV) Has(key []byte) (bool, error) {
	s.charge(1000)
	_, ok := s.l.get(string(key))
	return ok, nil
}
func (s *KV) Set(key, value []byte) error {
	s.charge(2000)
	if value == nil {
		return errors.New("nil value")
	}
	v := make([]byte, len(value))
	copy(v, value)
	s.l.m[string(key)] = ent{v: v}
	return nil
}
func (s *KV) Delete(key []byte) error {
	s.charge(1000)
	if s.l.parent == nil {
		delete(s.l.m, string(key))
	} else {
		s.l.m[string(key)] = ent{del: true}
	}
	return nil
}

// Count returns the number of live keys.
func (s *KV) Count() int { return len(s.l.keys()) }

// Dump returns the live keys in order.
func (s *KV) Keys() []string { return s.l.keys() }

type iter struct {
	kv         *KV
	keys       []string
	i          int
	start, end []byte
}

func (s *KV) iterate(start, end []byte, rev bool) *iter {
	keys := s.l.keysIn(start, end)
	if rev {
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return &iter{kv: s, keys: keys, start: start, end: end}
}

func (s *KV) Iterator(start, end []byte) (corestore.Iterator, error) {
	return s.iterate(start, end, false), nil
}
func (s *KV) ReverseIterator(start, end []byte) (corestore.Iterator, error) {
	return s.iterate(start, end, true), nil
}
func (it *iter) Domain() ([]byte, []byte) { return it.start, it.end }
func (it *iter) Valid() bool              { return it.i < len(it.keys) }
func (it *iter) Next()                    { it.i++ }
func (it *iter) Key() []byte              { return []byte(it.keys[it.i]) }
func (it *iter) Value() []byte {
	e, _ := it.kv.l.get(it.keys[it.i])
	return e.v
}
func (it *iter) Error() error { return nil }
func (it *iter) Close() error { return nil }

// Service opens one store.
type Service struct{ Store int }

func (s Service) OpenKVStore(ctx context.Context) corestore.KVStore { return Open(ctx, s.Store) }
func (s Service) OpenTransientStore(ctx context.Context) corestore.KVStore {
	return Open(ctx, s.Store)
}

// NewCtx returns a context over a fresh multistore.
func NewCtx() sdk.Context {
	return sdk.NewContext(NewMS(), cmtproto.Header{}, false, log.NewNopLogger())
}

// ---- accounts ----

// AK is an account keeper over the branching store.
type AK struct {
	// Clone copies module specific account types.
	CloneFn func(sdk.AccountI) sdk.AccountI
	Mods    map[string]sdk.AccAddress
}

func (k *AK) clone(a sdk.AccountI) sdk.AccountI {
	switch x := a.(type) {
	case nil:
		return nil
	case *authtypes.BaseAccount:
		c := *x
		return &c
	case *authtypes.ModuleAccount:
		b := *x.BaseAccount
		c := *x
		c.BaseAccount = &b
		return &c
	}
	return k.CloneFn(a)
}

func (k *AK) lay(ctx context.Context) *layer { return Open(ctx, StoreAccounts).l }

func (k *AK) NewAccount(ctx context.Context, acc sdk.AccountI) sdk.AccountI {
	if err := acc.SetAccountNumber(k.NextAccountNumber(ctx)); err != nil {
		panic(err)
	}
	return acc
}
func (k *AK) NewAccountWithAddress(ctx context.Context, addr sdk.AccAddress) sdk.AccountI {
	return k.NewAccount(ctx, authtypes.NewBaseAccountWithAddress(addr))
}
func (k *AK) NextAccountNumber(ctx context.Context) uint64 {
	l := k.lay(ctx)
	e, ok := l.get("#next")
	n := uint64(0)
	if ok {
		n = uint64(e.v[0])
	}
	l.m["#next"] = ent{v: []byte{byte(n + 1)}}
	return n
}
func (k *AK) GetAccount(ctx context.Context, addr sdk.AccAddress) sdk.AccountI {
	e, ok := k.lay(ctx).get("a" + string(addr))
	if !ok {
		return nil
	}
	return k.clone(e.acc)
}

// All lists the accounts.
func (k *AK) All(ctx context.Context) []sdk.AccountI {
	l := k.lay(ctx)
	var r []sdk.AccountI
	for _, key := range l.keys() {
		if key[0] == 'a' {
			e, _ := l.get(key)
			r = append(r, k.clone(e.acc))
		}
	}
	return r
}

func (k *AK) HasAccount(ctx context.Context, addr sdk.AccAddress) bool {
	_, ok := k.lay(ctx).get("a" + string(addr))
	return ok
}
func (k *AK) SetAccount(ctx context.Context, acc sdk.AccountI) {
	k.lay(ctx).m["a"+string(acc.GetAddress())] = ent{acc: k.clone(acc)}
}
func (k *AK) RemoveAccount(ctx context.Context, acc sdk.AccountI) {
	l := k.lay(ctx)
	key := "a" + string(acc.GetAddress())
	if l.parent == nil {
		delete(l.m, key)
	} else {
		l.m[key] = ent{del: true}
	}
}
func (k *AK) GetModuleAddress(name string) sdk.AccAddress { return k.Mods[name] }

// ---- codec ----

// Cdc marshals with the generated (gogoproto) code.
type Cdc struct {
	codec.Codec
	Ifaces codectypes.InterfaceRegistry
	Hooks  *CdcHooks
}

// CdcHooks stands in for the JSON codec of messages.
type CdcHooks struct {
	Msg     func(json string) (sdk.Msg, error)
	Signers func(msg sdk.Msg) ([][]byte, error)
	// reading merges into the message, as the JSON codec does
	ReadJSON  func(bz []byte, o gogoproto.Message) error
	WriteJSON func(o gogoproto.Message) ([]byte, error)
}

func (c Cdc) UnmarshalJSON(bz []byte, o gogoproto.Message) error { return c.Hooks.ReadJSON(bz, o) }
func (c Cdc) MarshalJSON(o gogoproto.Message) ([]byte, error)    { return c.Hooks.WriteJSON(o) }

func (c Cdc) UnmarshalInterfaceJSON(bz []byte, ptr interface{}) error {
	m, err := c.Hooks.Msg(string(bz))
	if err != nil {
		return err
	}
	*(ptr.(*sdk.Msg)) = m
	return nil
}

func (c Cdc) GetMsgV1Signers(msg gogoproto.Message) ([][]byte, protov2.Message, error) {
	s, err := c.Hooks.Signers(msg)
	return s, nil, err
}

type marshaler interface {
	Marshal() ([]byte, error)
}
type unmarshaler interface {
	Unmarshal([]byte) error
}

func (c Cdc) Marshal(o gogoproto.Message) ([]byte, error) { return o.(marshaler).Marshal() }
func (c Cdc) MustMarshal(o gogoproto.Message) []byte {
	b, err := c.Marshal(o)
	if err != nil {
		panic(err)
	}
	return b
}
func (c Cdc) Unmarshal(bz []byte, o gogoproto.Message) error {
	o.(interface{ Reset() }).Reset()
	return o.(unmarshaler).Unmarshal(bz)
}
func (c Cdc) MustUnmarshal(bz []byte, o gogoproto.Message) {
	if err := c.Unmarshal(bz, o); err != nil {
		panic(err)
	}
}
func (c Cdc) InterfaceRegistry() codectypes.InterfaceRegistry { return c.Ifaces }
