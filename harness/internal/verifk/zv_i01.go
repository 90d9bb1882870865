package verifk

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"math/big"
	"strconv"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/address"
	gogoproto "github.com/cosmos/gogoproto/proto"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	porttypes "github.com/cosmos/ibc-go/v8/modules/core/05-port/types"
	ibcexported "github.com/cosmos/ibc-go/v8/modules/core/exported"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	nfttypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"
	"github.com/initia-labs/minievm/x/evm/types"

	ibchooks "github.com/initia-labs/initia/x/ibc-hooks"
	hookskeeper "github.com/initia-labs/initia/x/ibc-hooks/keeper"
	hookstypes "github.com/initia-labs/initia/x/ibc-hooks/types"

	evmhooks "github.com/initia-labs/minievm/app/ibc-hooks"
	ve "github.com/initia-labs/minievm/internal/verifenv"
	rt "github.com/initia-labs/minievm/internal/verifrt"
)

// transferApp stands in for the transfer module below the hooks: it moves the
// funds of a packet to its receiver.
type transferApp struct {
	porttypes.IBCModule
	give    func(ctx context.Context, to common.Address)
	fail    bool
	calls   []channeltypes.Packet
	acks    [][]byte
	relayer sdk.AccAddress
}

var errApp = errors.New("application")

func (a *transferApp) OnRecvPacket(ctx sdk.Context, p channeltypes.Packet, relayer sdk.AccAddress) ibcexported.Acknowledgement {
	a.calls = append(a.calls, p)
	a.relayer = relayer
	if a.fail {
		return channeltypes.NewErrorAcknowledgement(errApp)
	}
	var d struct {
		Receiver string `json:"receiver"`
	}
	if err := json.Unmarshal(p.Data, &d); err != nil {
		return channeltypes.NewErrorAcknowledgement(err)
	}
	if to, err := sdk.AccAddressFromBech32(d.Receiver); err == nil {
		a.give(ctx, common.BytesToAddress(to))
	} else {
		a.give(ctx, common.HexToAddress(d.Receiver))
	}
	return channeltypes.NewResultAcknowledgement([]byte{1})
}

func (a *transferApp) OnAcknowledgementPacket(ctx sdk.Context, p channeltypes.Packet, ack []byte, relayer sdk.AccAddress) error {
	a.calls = append(a.calls, p)
	a.acks = append(a.acks, ack)
	a.relayer = relayer
	if a.fail {
		return errApp
	}
	a.give(ctx, Dave)
	return nil
}

func (a *transferApp) OnTimeoutPacket(ctx sdk.Context, p channeltypes.Packet, relayer sdk.AccAddress) error {
	a.calls = append(a.calls, p)
	a.relayer = relayer
	if a.fail {
		return errApp
	}
	a.give(ctx, Dave)
	return nil
}

// hooked is the application with the hooks of the chain around it.
func (e *Env) hooked(app *transferApp) (ibchooks.IBCMiddleware, *hookskeeper.Keeper) {
	e.Cdc.Hooks.ReadJSON = readAck
	hk := hookskeeper.NewKeeper(e.Cdc, ve.Service{Store: ve.StoreHooks}, Authority.String(), AC{})
	h := evmhooks.NewEVMHooks(e.Cdc, AC{}, e.K)
	ics4 := ibchooks.NewICS4Middleware(nil, h)
	return ibchooks.NewIBCMiddleware(app, ics4, hk), hk
}

// readAck reads acknowledgements as the chain's codec does.
func readAck(bz []byte, o gogoproto.Message) error {
	a, ok := o.(*channeltypes.Acknowledgement)
	if !ok {
		panic("unsupported")
	}
	var d map[string]string
	if err := json.Unmarshal(bz, &d); err != nil {
		return err
	}
	if s, ok := d["error"]; ok {
		a.Response = &channeltypes.Acknowledgement_Error{Error: s}
	} else if s, ok := d["result"]; ok {
		a.Response = &channeltypes.Acknowledgement_Result{Result: []byte(s)}
	} else {
		return errors.New("not an acknowledgement")
	}
	return nil
}

// acl writes a random access list for a contract, and says whether it may be
// called.
func acl(ctx context.Context, hk *hookskeeper.Keeper, a common.Address) bool {
	def := rt.Bool("allowed by default")
	if err := hk.Params.Set(ctx, hookstypes.Params{DefaultAllowed: def}); err != nil {
		panic(err)
	}
	if rt.Choice("listed", 2) == 0 {
		return def
	}
	one := rt.Bool("allowed")
	if err := hk.SetAllowed(ctx, a.Bytes(), one); err != nil {
		panic(err)
	}
	return one
}

func hexOf(bz []byte) string { return "0x" + common.Bytes2Hex(bz) }

// allowanceIn is the call data of allowance(address,address).
func allowanceIn(owner, spender common.Address) []byte {
	return cat(crypto.Keccak256([]byte("allowance(address,address)"))[:4], common.LeftPadBytes(owner.Bytes(), 32), common.LeftPadBytes(spender.Bytes(), 32))
}

func u256(x int64) []byte { return common.LeftPadBytes(big.NewInt(x).Bytes(), 32) }

// ZV_HookReceive: a packet with a hook runs one call of the named contract as
// the account derived from channel and sender, with exactly the funds of the
// packet, or is refused.
func ZV_HookReceive() {
	t := NewTokens()
	e := t.Env
	app := &transferApp{}
	im, hk := e.hooked(app)

	// the contract: records caller, value and input, takes the funds when it
	// is told to, and fails when it is told to
	const sent = 12345
	form := rt.Choice("memo", 6)
	pick := func(name string, n int) int {
		if form != 0 {
			return 0
		}
		return rt.Choice(name, n)
	}
	kind := pick("funds", 4)
	foreign := transfertypes.ParseDenomTrace("transfer/channel-0/uatom").IBCDenom()
	denom, local := "uatom", foreign
	switch kind {
	case 1: // a token of the chain comes back
		denom, local = "transfer/channel-7/"+FeeDenom, FeeDenom
	case 2: // a contract's own token comes back
		denom, local = "transfer/channel-7/"+t.Denoms[0], t.Denoms[0]
	case 3: // a voucher of another chain comes back
		local = transfertypes.ParseDenomTrace("transfer/channel-3/uosmo").IBCDenom()
		denom = "transfer/channel-7/transfer/channel-3/uosmo"
	}
	if kind == 0 || kind == 3 {
		if err := e.K.ERC20Keeper().CreateERC20(e.Ctx, local, 0); err != nil {
			panic(err)
		}
	}
	token := t.Token
	if kind != 2 {
		a, err := e.K.GetContractAddrByDenom(e.Ctx, local)
		if err != nil {
			panic(err)
		}
		token = a
	}
	app.give = func(ctx context.Context, to common.Address) {
		c := *t
		c.Env = &Env{}
		*c.Env = *e
		c.Ctx = sdk.UnwrapSDKContext(ctx)
		if kind == 2 {
			c.TokenMint(Alice, t.Token, to, big.NewInt(sent))
		} else {
			c.Mint(to, local, big.NewInt(sent))
		}
	}

	sender := []string{"cosmos1sender", "initvaloper/x"}[pick("sender", 2)]
	inter := sdk.AccAddress(address.Hash("ibc-evm-hook-intermediary", []byte("channel-0/"+sender)))
	interE := common.BytesToAddress(inter)
	value := int64(pick("value", 2)) * 7
	if value != 0 && kind != 1 {
		e.Mint(interE, FeeDenom, big.NewInt(100))
	}
	fails := pick("contract fails", 2) == 1
	flag := common.Hash{}
	if fails {
		flag[31] = 1
	}

	// 0: caller, 1: value, 2: first input word, 3: allowance, 4: count
	put := func(slot int, x []byte) []byte { return asm(x, push(slot), opSSTORE) }
	code := asm(put(0, asm(opCALLER)), put(1, asm(opVALUE)), put(2, arg(0)), put(4, asm(push(4), opSLOAD, push(1), opADD)))
	code = asm(code, storeWords(allowanceIn(interE, Carol)), push(32), push(256), push(68), push(0), push(0), pushAddr(token), opGAS, opCALL, opPOP,
		put(3, asm(push(256), opMLOAD)))
	code = asm(code, pushWord(flag), opISZERO, ifNot())
	e.Deploy(Carol, code)

	contract := []string{Carol.Hex(), sdk.AccAddress(Carol.Bytes()).String()}[pick("contract address", 2)]
	receiver := contract
	input := cat(u256(77), []byte("x"))
	memo := `{"evm":{"message":{"sender":"` + sdk.AccAddress(Alice.Bytes()).String() + `","contract_addr":"` + contract +
		`","input":"` + hexOf(input) + `","value":"` + strconv.FormatInt(value, 10) + `"}}}`
	hook, bad := true, false
	switch form {
	case 1:
		memo, hook = "", false
	case 2:
		memo, hook = `{"wasm":{}}`, false
	case 3: // only for the way back
		memo, hook = `{"evm":{"async_callback":{"id":1,"contract_address":"`+contract+`"}}}`, false
	case 4: // the receiver is someone else
		receiver, bad = sdk.AccAddress(Bob.Bytes()).String(), true
	case 5: // a malformed call
		memo, bad = `{"evm":{"message":{"contract_addr":"`+contract+`","input":7}}}`, true
	}
	allowed := acl(e.Ctx, hk, Carol)
	app.fail = rt.Bool("transfer fails")

	data := transfertypes.FungibleTokenPacketData{Denom: denom, Amount: strconv.Itoa(sent), Sender: sender, Receiver: receiver, Memo: memo}
	bz, err := json.Marshal(&data)
	if err != nil {
		panic(err)
	}
	packet := channeltypes.Packet{Sequence: 5, SourcePort: "transfer", SourceChannel: "channel-7", DestinationPort: "transfer", DestinationChannel: "channel-0", Data: bz, TimeoutTimestamp: 9}
	relayer := sdk.AccAddress(Dave.Bytes())
	ctx, _ := e.Ctx.CacheContext()
	ack := im.OnRecvPacket(ctx, packet, relayer)

	_, db, err := e.StateDB(ctx, Bob)
	if err != nil {
		panic(err)
	}
	word := func(i int64) common.Hash { return db.GetState(Carol, common.BigToHash(big.NewInt(i))) }
	runs := word(4)
	if !hook {
		rt.Reach("no hook")
		rt.Assert(len(app.calls) == 1 && same2(app.calls[0], packet) && app.relayer.Equals(relayer), "a packet without a hook reaches the application unchanged")
		rt.Assert(ack.Success() == !app.fail, "and the answer is the application's")
		rt.Assert(runs == common.Hash{}, "and runs no contract")
		return
	}
	if bad || !allowed {
		rt.Reach("refused")
		rt.Assert(!ack.Success(), "a malformed hook or one for a contract that is not allowed is refused")
		rt.Assert(len(app.calls) == 0, "before anything is transferred")
		rt.Assert(runs == common.Hash{}, "and before anything is called")
		return
	}
	rt.Assert(len(app.calls) == 1 && app.relayer.Equals(relayer), "the funds are transferred once")
	got := app.calls[0]
	var moved transfertypes.FungibleTokenPacketData
	if err := json.Unmarshal(got.Data, &moved); err != nil {
		panic(err)
	}
	rt.Assert(moved.Receiver == inter.String(), "the funds of the packet go to the account derived from channel and sender")
	moved.Receiver = receiver
	rt.Assert(moved == data, "and nothing else in the packet is changed")
	got.Data = packet.Data
	rt.Assert(same2(got, packet), "and neither is the envelope")
	if app.fail {
		rt.Reach("transfer failed")
		rt.Assert(!ack.Success() && runs == common.Hash{}, "a failed transfer runs no contract")
		return
	}
	rt.Assert(ack.Success() == !fails, "the packet succeeds exactly when the call does")
	if fails {
		rt.Reach("call failed")
		return
	}
	rt.Reach("called")
	rt.Assert(bytes.Equal(ack.Acknowledgement(), channeltypes.NewResultAcknowledgement([]byte{1}).Acknowledgement()), "the acknowledgement is the application's")
	rt.Assert(runs == common.BigToHash(big.NewInt(1)), "the contract runs once")
	rt.Assert(word(0) == common.BytesToHash(interE.Bytes()), "as the account derived from channel and sender")
	rt.Assert(word(1) == common.BigToHash(big.NewInt(value)), "with the value of the message")
	rt.Assert(word(2) == common.BytesToHash(u256(77)), "and its input")
	rt.Assert(word(3) == common.BigToHash(big.NewInt(sent)), "it may take exactly the funds of the packet")
}

func same2(a, b channeltypes.Packet) bool {
	return a.Sequence == b.Sequence && a.SourcePort == b.SourcePort && a.SourceChannel == b.SourceChannel && a.DestinationPort == b.DestinationPort &&
		a.DestinationChannel == b.DestinationChannel && bytes.Equal(a.Data, b.Data) && a.TimeoutHeight == b.TimeoutHeight && a.TimeoutTimestamp == b.TimeoutTimestamp
}

// storeWords puts data in memory.
func storeWords(data []byte) []byte {
	var r []byte
	for i := 0; i < len(data); i += 32 {
		r = asm(r, pushWord(common.BytesToHash(common.RightPadBytes(data[i:min(i+32, len(data))], 32))), push(i), opMSTORE)
	}
	return r
}

// ZV_HookReceiveNFT: the same for packets of NFTs: the contract may take the
// tokens of the packet, each of them and no others.
func ZV_HookReceiveNFT() {
	e := NewInit()
	app := &transferApp{}
	im, hk := e.hooked(app)
	nfts := e.K.ERC721Keeper()

	form := rt.Choice("memo", 4)
	pick := func(name string, n int) int {
		if form != 0 {
			return 0
		}
		return rt.Choice(name, n)
	}
	kind := pick("tokens", 3)
	class, local := "nft-transfer/channel-7/punks", "punks"
	ids := []string{"1", "22"}
	switch kind {
	case 1: // a voucher
		class = "punks"
		local = nfttypes.ParseClassTrace("nft-transfer/channel-0/punks").IBCClassId()
		ids = []string{"a", "b"}
	case 2: // the collection of a contract comes back
		local = "evm/"
	}
	if kind == 2 {
		// a collection of its own: no class is registered for it
		if err := nfts.CreateOrUpdateClass(e.Ctx, "own", "", ""); err != nil {
			panic(err)
		}
		a, err := e.K.GetContractAddrByClassId(e.Ctx, "own")
		if err != nil {
			panic(err)
		}
		if err := e.K.ERC721ContractAddrsByClassId.Remove(e.Ctx, "own"); err != nil {
			panic(err)
		}
		if err := e.K.ERC721ClassIdsByContractAddr.Remove(e.Ctx, a.Bytes()); err != nil {
			panic(err)
		}
		local += a.Hex()[2:]
		class = "nft-transfer/channel-7/" + local
	} else if err := nfts.CreateOrUpdateClass(e.Ctx, local, "", ""); err != nil {
		panic(err)
	}
	collection, err := types.ContractAddressFromClassId(e.Ctx, e.K, local)
	if err != nil {
		panic(err)
	}
	// one more token of the same account, not in the packet
	inter := sdk.AccAddress(address.Hash("ibc-evm-hook-intermediary", []byte("channel-0/someone")))
	interE := common.BytesToAddress(inter)
	other := []string{"333"}
	none := []string{""}
	if err := nfts.Mints(e.Ctx, inter, local, other, none, none); err != nil {
		panic(err)
	}
	app.give = func(ctx context.Context, to common.Address) {
		if to != interE {
			return
		}
		two := []string{"", ""}
		if err := nfts.Mints(ctx, to.Bytes(), local, ids, two, two); err != nil {
			panic(err)
		}
	}

	// 0: caller, 1..3: who may take the tokens
	code := asm(opCALLER, push(0), opSSTORE)
	for i, id := range append(append([]string{}, ids...), other...) {
		n, ok := types.TokenIdToBigInt(local, id)
		if !ok {
			panic("token id")
		}
		in := cat(crypto.Keccak256([]byte("getApproved(uint256)"))[:4], common.LeftPadBytes(n.Bytes(), 32))
		code = asm(code, storeWords(in), push(32), push(256), push(36), push(0), push(0), pushAddr(collection), opGAS, opCALL, opPOP, push(256), opMLOAD, push(i+1), opSSTORE)
	}
	fails := pick("contract fails", 2) == 1
	flag := common.Hash{}
	if fails {
		flag[31] = 1
	}
	e.Deploy(Carol, asm(code, pushWord(flag), opISZERO, ifNot()))

	contract := []string{Carol.Hex(), sdk.AccAddress(Carol.Bytes()).String()}[pick("contract address", 2)]
	receiver := contract
	memo := `{"evm":{"message":{"contract_addr":"` + contract + `","input":"0x01","value":"0"}}}`
	hook, bad := true, false
	switch form {
	case 1:
		memo, hook = "", false
	case 2: // the receiver is someone else
		receiver, bad = sdk.AccAddress(Bob.Bytes()).String(), true
	case 3: // a malformed call
		memo, bad = `{"evm":{"message":{"contract_addr":"`+contract+`","input":7}}}`, true
	}
	allowed := acl(e.Ctx, hk, Carol)
	app.fail = rt.Bool("transfer fails")
	data := nfttypes.NonFungibleTokenPacketData{ClassId: class, ClassUri: "u", ClassData: "d", TokenIds: ids, TokenUris: []string{"x", "y"}, TokenData: []string{"p", "q"},
		Sender: "someone", Receiver: receiver, Memo: memo}
	bz, err := json.Marshal(&data)
	if err != nil {
		panic(err)
	}
	packet := channeltypes.Packet{Sequence: 5, SourcePort: "nft-transfer", SourceChannel: "channel-7", DestinationPort: "nft-transfer", DestinationChannel: "channel-0", Data: bz, TimeoutTimestamp: 9}
	ctx, _ := e.Ctx.CacheContext()
	ack := im.OnRecvPacket(ctx, packet, Dave.Bytes())

	_, db, err := e.StateDB(ctx, Bob)
	if err != nil {
		panic(err)
	}
	word := func(i int64) common.Hash { return db.GetState(Carol, common.BigToHash(big.NewInt(i))) }
	ran := word(0) != common.Hash{}
	if !hook {
		rt.Reach("no hook")
		rt.Assert(len(app.calls) == 1 && same2(app.calls[0], packet), "a packet without a hook reaches the application unchanged")
		rt.Assert(ack.Success() == !app.fail && !ran, "and runs no contract")
		return
	}
	if bad || !allowed {
		rt.Reach("refused")
		rt.Assert(!ack.Success() && len(app.calls) == 0 && !ran, "a malformed hook or one for a contract that is not allowed is refused")
		return
	}
	rt.Assert(len(app.calls) == 1, "the tokens are transferred once")
	got := app.calls[0]
	var moved nfttypes.NonFungibleTokenPacketData
	if err := json.Unmarshal(got.Data, &moved); err != nil {
		panic(err)
	}
	rt.Assert(moved.Receiver == inter.String(), "the tokens go to the account derived from channel and sender")
	moved.Receiver = receiver
	back, err := json.Marshal(&moved)
	if err != nil {
		panic(err)
	}
	rt.Assert(bytes.Equal(back, bz), "and nothing else in the packet is changed")
	got.Data = packet.Data
	rt.Assert(same2(got, packet), "and neither is the envelope")
	if app.fail {
		rt.Reach("transfer failed")
		rt.Assert(!ack.Success() && !ran, "a failed transfer runs no contract")
		return
	}
	rt.Assert(ack.Success() == !fails, "the packet succeeds exactly when the call does")
	if fails {
		rt.Reach("call failed")
		return
	}
	rt.Reach("called")
	rt.Assert(word(0) == common.BytesToHash(interE.Bytes()), "the contract runs as the account derived from channel and sender")
	for i := int64(1); i <= 2; i++ {
		rt.Assert(word(i) == common.BytesToHash(Carol.Bytes()), "it may take each token of the packet")
	}
	rt.Assert(word(3) == common.Hash{}, "and no other token")
}

// ZV_HookCallback: when a transfer is acknowledged or times out, the contract
// named by the sender is told once, as the sender, with the outcome; whatever
// it does, the transfer is settled.
func ZV_HookCallback() {
	t := NewTokens()
	e := t.Env
	app := &transferApp{}
	im, hk := e.hooked(app)
	app.give = func(ctx context.Context, to common.Address) {
		c := *e
		c.Ctx = sdk.UnwrapSDKContext(ctx)
		c.Mint(to, FeeDenom, big.NewInt(1))
	}
	form := rt.Choice("memo", 5)
	pick := func(name string, n int) int {
		if form != 0 {
			return 0
		}
		return rt.Choice(name, n)
	}
	fails := false
	var message []byte
	switch pick("contract", 4) {
	case 1:
		fails = true
	case 2: // a message that the contract sends fails, after its code has run
		fails = true
		message = asm(callCode(opCALL, cosmosAt, cosmosIn("execute_cosmos", "bad")), opPOP)
	case 3: // it sends a message
		message = asm(callCode(opCALL, cosmosAt, cosmosIn("execute_cosmos", "good")), opPOP)
	}
	self := [][]byte{Carol.Bytes()}
	ran := e.Notes(map[string]*Note{"bad": {Tag: "bad", From: self, Bad: "failing"}, "good": {Tag: "good", From: self}})
	flag := common.Hash{}
	if fails && message == nil {
		flag[31] = 1
	}
	// 0: caller, 1: count, 2: selector, 3, 4: arguments, 5: input size
	put := func(slot int, x ...any) []byte { return asm(asm(x...), push(slot), opSSTORE) }
	at := func(n int) []byte { return asm(push(n), opCALLDATALOAD) }
	e.Deploy(Carol, asm(put(0, opCALLER), put(1, push(1), opSLOAD, push(1), opADD), put(2, at(0), push(224), 0x1c), put(3, at(4)), put(4, at(36)), put(5, opCALLDATASIZE),
		message, pushWord(flag), opISZERO, ifNot()))

	id := []uint64{1, 1<<53 + 1, 1<<64 - 1}[pick("id", 3)]
	contract := []string{Carol.Hex(), sdk.AccAddress(Carol.Bytes()).String()}[pick("contract address", 2)]
	memo := `{"evm":{"async_callback":{"id":` + strconv.FormatUint(id, 10) + `,"contract_address":"` + contract + `"}}}`
	hook := true
	switch form {
	case 1:
		memo, hook = "", false
	case 2:
		memo, hook = `{"wasm":{}}`, false
	case 3: // a hook for the other chain only
		memo, hook = `{"evm":{"message":{"contract_addr":"`+contract+`","input":"0x"}}}`, false
	case 4: // malformed
		memo, hook = `{"evm":{"async_callback":{"id":"x","contract_address":"`+contract+`"}}}`, false
	}
	// the sender: a plain account or a contract
	sender := sdk.AccAddress(Bob.Bytes())
	allowed := acl(e.Ctx, hk, Carol)
	app.fail = rt.Bool("application fails")

	port := "transfer"
	var bz []byte
	var err error
	if rt.Choice("packet", 2) == 0 {
		bz, err = json.Marshal(&transfertypes.FungibleTokenPacketData{Denom: "uatom", Amount: "5", Sender: sender.String(), Receiver: "cosmos1x", Memo: memo})
	} else {
		port = "nft-transfer"
		bz, err = json.Marshal(&nfttypes.NonFungibleTokenPacketData{ClassId: "punks", TokenIds: []string{"1"}, TokenUris: []string{""}, TokenData: []string{""}, Sender: sender.String(), Receiver: "cosmos1x", Memo: memo})
	}
	if err != nil {
		panic(err)
	}
	packet := channeltypes.Packet{Sequence: 5, SourcePort: port, SourceChannel: "channel-0", DestinationPort: port, DestinationChannel: "channel-7", Data: bz, TimeoutTimestamp: 9}
	relayer := sdk.AccAddress(Dave.Bytes())
	ctx, _ := e.Ctx.CacheContext()
	how := rt.Choice("outcome", 3)
	ack := channeltypes.NewResultAcknowledgement([]byte{1})
	if how == 1 {
		ack = channeltypes.NewErrorAcknowledgement(errApp)
	}
	ackBz := []byte(`{"result":"AQ=="}`)
	if how == 1 {
		ackBz = []byte(`{"error":"` + ack.GetError() + `"}`)
	}
	before := e.at(ctx).Bal(Dave, FeeDenom)
	if how == 2 {
		err = im.OnTimeoutPacket(ctx, packet, relayer)
	} else {
		err = im.OnAcknowledgementPacket(ctx, packet, ackBz, relayer)
	}
	settled := new(big.Int).Sub(e.at(ctx).Bal(Dave, FeeDenom), before)

	_, db, er := e.StateDB(ctx, Bob)
	if er != nil {
		panic(er)
	}
	word := func(i int64) common.Hash { return db.GetState(Carol, common.BigToHash(big.NewInt(i))) }
	num := func(x uint64) common.Hash { return common.BigToHash(new(big.Int).SetUint64(x)) }
	rt.Assert(len(app.calls) == 1 && same2(app.calls[0], packet) && app.relayer.Equals(relayer), "the application settles the packet once")
	rt.Assert(how == 2 || bytes.Equal(app.acks[0], ackBz), "with the acknowledgement that came back")
	rt.Assert((err != nil) == app.fail, "the packet is settled whatever the callback does")
	if app.fail {
		rt.Reach("application failed")
		rt.Assert(word(1) == common.Hash{}, "a packet that is not settled calls nobody")
		return
	}
	rt.Assert(settled.Cmp(big.NewInt(1)) == 0, "and what the application did stays")
	if !hook || !allowed || fails {
		rt.Reach("no callback")
		rt.Assert(word(1) == common.Hash{} && word(0) == common.Hash{}, "without a callback, or with one that is not allowed or fails, nothing is left of it")
		return
	}
	rt.Reach("callback")
	rt.Assert(word(1) == num(1), "the contract is called once")
	rt.Assert(message == nil || len(*ran) == 1 && (*ran)[0] == "good", "the message of the contract is executed once")
	rt.Assert(word(0) == common.BytesToHash(Bob.Bytes()), "as the sender of the packet")
	sel := "ibc_ack(uint64,bool)"
	size := uint64(68)
	if how == 2 {
		sel, size = "ibc_timeout(uint64)", 36
	}
	rt.Assert(word(2) == common.BytesToHash(crypto.Keccak256([]byte(sel))[:4]), "about what happened")
	rt.Assert(word(3) == num(id) && word(5) == num(size), "with the id of the sender")
	if how != 2 {
		rt.Assert(word(4) == num(uint64(1-how)), "and whether it succeeded")
	}
}

// at is the environment on another context.
func (e *Env) at(ctx sdk.Context) *Env {
	c := *e
	c.Ctx = ctx
	return &c
}
