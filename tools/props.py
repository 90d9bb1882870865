HOOKS = None
NOTES = 'Checks are run by engine/ (symgo): a symbolic executor for Go SSA built from the working tree of /repo on every run; see DESIGN.md.'
K = ['internal/verifenv/env.go', 'internal/verifk/env.go', 'internal/verifk/util.go', 'internal/verifk/asm.go', 'internal/verifk/tokens.go', 'internal/verifk/prec.go']
VK = 'internal/verifk'
def hk(func, file, quick, thorough, reach, bounds, **kw):
    """harness in internal/verifk"""
    fs = K + ['internal/verifk/' + f for f in ([file] if isinstance(file, str) else file)]
    return dict(pkg=VK, func=func, files=fs, quick_s=quick, thorough_s=thorough, reach=reach, bounds=bounds, **kw)
def h(pkg, func, files, quick, thorough, reach, bounds, **kw):
    return dict(pkg=pkg, func=func, files=files, quick_s=quick, thorough_s=thorough, reach=reach, bounds=bounds, **kw)
KENV = 'The stores are an exact in-memory model of the SDK KV stores and cache contexts; account keeper, bank, community pool and gas-price keeper are stand-ins that keep the same contract.'
HASH = 'keccak256/sha256 and address derivation are uninterpreted functions that are assumed collision-free on the values that occur; counterexamples are replayed with the real functions before they are reported.'
P = [
dict(id='E01', title='EVM reverts undo exactly the reverted call frame',
 statement='When a call frame of an EVM transaction reverts, every effect made inside it and its sub-calls (storage, transient storage, nonces, account creation, logs, refund counter, warm access list) disappears, while every effect of the surrounding frames and of sub-calls that succeeded is kept. Committing the transaction stores exactly the surviving effects, in particular also when a snapshot is reverted to more than once or is the newest one.',
 over=['histories','inputs'], q='all nestings of snapshot/write/revert up to the bound, all written values, slots and addresses that may coincide',
 why='the tests drive a few hand-written snapshot sequences with fixed values; the guarantee is over all nestings and aliasing of slots',
 files=['x/evm/state/statedb.go','x/evm/state/snapshot.go'], mech=[('snapshot stack over cache contexts','x/evm/state/snapshot.go'),('Snapshot / RevertToSnapshot / Commit','x/evm/state/statedb.go')],
 harnesses=[h('x/evm/state','ZV_NestedRevert',['internal/verifenv/env.go','x/evm/state/zv_env.go','x/evm/state/zv_revert.go'],60,900,['commit','revert'],'call frames nested to depth 2 (thorough 3), at most 2 children per frame, every keep/revert pattern; 2 accounts, 2 storage slots (symbolic, possibly equal), all written values symbolic')],
 assume=[KENV]),
dict(id='E02', title='Contract storage, code and nonce reads return the last write',
 statement='Reading a storage slot of a contract returns the last value written to exactly that contract and slot and zero if it was never written or was cleared; distinct contracts and distinct slots never influence each other. The committed value of a slot stays the value at the start of the transaction until the transaction ends, and the values survive to later transactions exactly when the transaction is committed. Code, code size, code hash and nonce of an account likewise are those last set for exactly that account.',
 over=['inputs','histories'], q='all 32-byte slots and values, all pairs of addresses (equal or not), short write/read sequences over two transactions',
 why='tests write a few fixed slots; key collisions and zero-value handling need all slots and values',
 files=['x/evm/state/statedb.go','x/evm/state/keys.go'], mech=[('state key layout','x/evm/state/keys.go'),('SetState / GetState / GetCommittedState','x/evm/state/statedb.go')],
 harnesses=[hk('ZV_StorageMap','zv_e02.go',60,600,['second transaction','dropped transaction'],'2 initial writes, then 2 (thorough 3) writes plus one in a sub-frame that is kept or reverted, over 2 symbolic addresses and 2 symbolic slots (possibly equal), transaction committed or dropped, then a next transaction; all data 32-byte symbolic'),
  hk('ZV_CodeNonce','zv_e02.go',60,300,['second transaction'],'2 (thorough 4) nonce and code writes over 2 symbolic addresses, code of 1 or 3 symbolic bytes, 64-bit symbolic nonces')],
 assume=[KENV]),
dict(id='E03', title='Transient storage is private per contract and cleared per transaction',
 statement='A value in transient storage is visible only to the contract that stored it, under exactly the key it was stored, and only within the same transaction. A later transaction, even in the same block, reads zero.',
 over=['inputs','histories'], q='all keys, values and pairs of contract addresses; two transactions of one block',
 why='tests use one contract address and one transaction',
 files=['x/evm/state/statedb.go','x/evm/state/keys.go'], mech=[('transient store keyed by execution index','x/evm/state/statedb.go')],
 harnesses=[hk('ZV_TransientPrivate','zv_e02.go',60,300,['revert','next transaction'],'2 writes by 2 symbolic contracts (possibly equal) with symbolic keys and values, then all reads, then a second transaction')],
 assume=[KENV]),
dict(id='E04', title='Self-destruct follows EIP-6780 and removes everything it should',
 statement='A self-destructed contract is deleted (account, code, storage, balance) at the end of the transaction exactly when it was created in the same transaction and the self-destruct was not reverted; a contract from an earlier transaction keeps its account, nonce, code and storage and only has its balance moved to the beneficiary. Storage of a deleted contract never comes back for a contract created later at the same address.',
 over=['inputs','histories'], q='all balances, storage slots and values, revert patterns, executed both through the state interface and through EVM bytecode',
 why='tests destroy one contract with fixed storage',
 files=['x/evm/state/statedb.go'], mech=[('Selfdestruct6780 and Commit','x/evm/state/statedb.go'),('created / self-destruct sets','x/evm/state/statedb.go')],
 harnesses=[hk('ZV_SelfDestructState','zv_e04.go',90,600,['removed','reverted'],'one contract of this transaction and one earlier contract destroyed or not, reverted or not, funds sent afterwards or not; 2 symbolic slots, 3 symbolic values, 64-bit symbolic balance'),
  hk('ZV_SelfDestructEVM','zv_e04.go',60,300,['constructor','call'],'SELFDESTRUCT bytecode run by the interpreter in a constructor and in an older contract, 64-bit symbolic balance and call value')],
 assume=[KENV,HASH]),
dict(id='E05', title='Contract creation never takes over or damages an occupied address',
 statement='Creating a contract succeeds exactly when its address has no account, or only an account that never signed and holds no code (a pre-funded plain account); otherwise the creation fails and the occupying account keeps its type, number, nonce, key, code, storage and balance. When creation succeeds the account number and the balance already held by the address are kept.',
 over=['inputs','configurations'], q='every kind of account at the target address with symbolic sequence, number, code and balance; CREATE and CREATE2',
 why='the tests create contracts at fresh addresses only',
 files=['x/evm/state/statedb.go','x/evm/types/auth.go','x/evm/keeper/context.go'], mech=[('CreateContract','x/evm/state/statedb.go'),('IsEmptyAccount','x/evm/types/auth.go')],
 harnesses=[hk('ZV_CreateCollision','zv_e04.go',60,300,['created','refused'],'8 kinds of occupant, symbolic nonce, account number, code (2 bytes), balance (64 bits); CREATE and CREATE2 of a fixed init code, and the state interface itself')],
 assume=[KENV,HASH]),
dict(id='E07', title='Native value moves exactly as EVM calls say',
 statement='An EVM call or creation that carries native value succeeds only if the sender holds it, and then moves exactly that amount from the sender to the called or created account, at every depth of calls; a reverted frame moves nothing. Nothing else changes: other balances and the supply of the native token stay the same, and contracts see through SELFBALANCE, CALLVALUE and the result of CALL exactly the balances that the chain reports.',
 over=['inputs'], q='all 64-bit balances and values, nested transfers, keep/revert of the outer and inner frame, transfer to oneself, CREATE and CREATE2',
 why='native balances are held by an ERC20 contract that the EVM calls from within; tests move one fixed value',
 files=['x/evm/keeper/context.go','x/evm/state/statedb.go'], mech=[('CanTransfer / Transfer of the block context','x/evm/keeper/context.go'),('AddBalance / SubBalance / GetBalance','x/evm/state/statedb.go')],
 harnesses=[hk('ZV_ValueTransfer','zv_e07.go',60,300,['self','inner transfer','inner refused','refused'],'a call with value and one nested call with value, each kept or reverted; 64-bit symbolic balance and values'),
  hk('ZV_ValueCreate','zv_e07.go',60,300,['created','refused'],'one creation with 64-bit symbolic value and balance, constructor kept or reverted')],
 assume=[KENV,HASH]),
dict(id='K04', title='Bank mint, burn and send move exactly the stated amounts',
 statement='Minting, burning and sending coins through the bank interface changes exactly the balances and supplies it should, for every coin of the set: mint credits the receiver and the supply, burn debits the holder and the supply, send moves between the two accounts and leaves supplies alone. It fails when any balance is too small; tokens made by users are never minted, and burning them pays exactly that coin, once, to the community pool instead.',
 over=['inputs'], q='all 64-bit amounts and balances, every subset of three denominations (fee token, second chain token, user token), sender equal to receiver or not',
 why='tests move one coin with fixed amounts; the guarantee is over coin sets and amounts',
 files=['x/evm/keeper/erc20.go'], mech=[('MintCoins / BurnCoins / SendCoins','x/evm/keeper/erc20.go'),('ERC20 contract bytecode','x/evm/contracts/erc20/ERC20.go')],
 harnesses=[hk('ZV_MoveCoins','zv_k04.go',150,900,['mint','burn','send','refused'],'one operation on any non-empty subset of 3 denominations, 64-bit symbolic amounts and balances; the real ERC20 contract bytecode is executed by the interpreter')],
 assume=[KENV,HASH,'the community pool is a recorder of what it is given']),
dict(id='K01', title='Only allowed publishers deploy contracts',
 statement='While the list of allowed publishers is not empty, a contract deployment message (MsgCreate and MsgCreate2) succeeds only for a sender on the list, compared as an account address; with an empty list everyone deploys. The contract of a successful deployment lives at the address derived from the sender (and nonce or salt and code) and holds the deployed code; a refused deployment leaves no contract.',
 over=['inputs','configurations'], q='all lists of up to 3 symbolic 20- or 32-byte publishers, plain and long senders, both creation messages',
 why='tests check one listed and one unlisted sender with fixed addresses',
 files=['x/evm/keeper/msg_server.go','x/evm/keeper/context.go'], mech=[('assertAllowedPublishers, Create and Create2','x/evm/keeper/msg_server.go')],
 harnesses=[hk('ZV_DeployAuth','zv_k01.go',60,300,['deployed','refused'],'0 to 3 publishers with symbolic addresses, sender of 20 or 32 bytes')],
 assume=[KENV,HASH]),
dict(id='K02', title='Parameters change only by the authority and only to valid values',
 statement='The EVM parameters change only through a MsgUpdateParams of the module authority, and only to valid ones: refund ratio between 0 and 1, block-hash window 0 or at least 256, well-formed publisher and ERC20 lists, and a fee denom that belongs to a token the chain can mint and burn. A refused update changes nothing, and neither a successful nor a refused update changes any balance or supply.',
 over=['inputs','configurations'], q='every 20-byte authority, every refund ratio and window (validation), valid and invalid parameter classes, every class of fee denom (chain, user, unknown, foreign contract)',
 why='the tests try one valid and one invalid update',
 files=['x/evm/keeper/msg_server.go','x/evm/types/params.go'], mech=[('UpdateParams and testFeeDenom','x/evm/keeper/msg_server.go'),('Params.Validate','x/evm/types/params.go')],
 harnesses=[hk('ZV_UpdateParams',['zv_k01.go'],90,600,['changed','refused'],'one update out of 11 parameter classes, 6 classes of fee denom and a symbolic authority'),
  hk('ZV_ParamsValid','zv_k01.go',30,300,['valid','invalid'],'257-bit signed refund ratio and 64-bit window')],
 assume=[KENV,HASH]),
dict(id='K11', title='Two accounts never act as the same EVM address',
 statement='A 20-byte account acts in the EVM as its own address. A longer account acts as the last 20 bytes of its address, and only while that address is unused (no sequence, key, code or other owner) or already belongs to it; then the address is bound to it for good, and any other long account with the same tail is refused. Likewise a long account is paid, and has a balance, exactly at that address and only under the same condition.',
 over=['inputs','histories'], q='all pairs of 32-byte accounts with a common symbolic tail, every kind of occupant of the 20-byte address with symbolic sequence',
 why='tests use one long account on a free address',
 files=['x/evm/keeper/address.go','x/evm/keeper/msg_server.go','x/evm/types/auth.go'], mech=[('convertToEVMAddress','x/evm/keeper/address.go'),('ShorthandAccount','x/evm/types/auth.go')],
 harnesses=[hk('ZV_Identity','zv_k01.go',60,300,['acts','refused'],'two symbolic 32-byte accounts with equal tails (symbolic, or fixed when payments are made) acting by MsgCall and being paid after one of 8 kinds of history of the 20-byte address')],
 assume=[KENV,HASH]),
dict(id='C01', title='Precompile messages run only with the calling contract as signer',
 statement='A Cosmos message sent through the cosmos precompile is accepted only when every signer it requires is the account that called the precompile: the contract itself for calls by contracts (also under DELEGATECALL, where it is the contract that delegates, and never the caller of that contract), the original long account for calls by long accounts. An accepted message is executed exactly once after the EVM call; a refused one fails the call and is not executed.',
 over=['inputs'], q='all signer lists of up to 2 symbolic 20- or 32-byte accounts, all ways of calling the precompile',
 why='tests send one message with the right and one with a wrong signer',
 files=['x/evm/precompiles/cosmos/contract.go','x/evm/keeper/context.go'], mech=[('execute_cosmos signer check','x/evm/precompiles/cosmos/contract.go'),('originAddress','x/evm/precompiles/cosmos/contract.go'),('dispatchMessages','x/evm/keeper/context.go')],
 harnesses=[hk('ZV_CosmosSigner','zv_c01.go',60,300,['accepted','refused'],'0 to 2 required signers of 20 or 32 symbolic bytes; called by a plain account, a long account, a contract, a delegate, a nested contract, statically')],
 assume=[KENV,HASH,'the codec that reads the message and names its signers is a stand-in; the message router is a recorder']),
dict(id='C02', title='Static calls change nothing through the precompiles',
 statement='A call of a precompile in a static context never changes state: registering a token or a store, and sending a Cosmos message, fail there and leave no registration, account or message, while the methods that only answer questions keep working.',
 over=['inputs'], q='every method of both precompiles, symbolic account argument, every way of being in a static context, caller registered or not',
 why='tests call one method with the read-only flag',
 files=['x/evm/precompiles/cosmos/contract.go','x/evm/precompiles/erc20_registry/contract.go','x/evm/keeper/context.go'], mech=[('readOnly checks of the cosmos precompile','x/evm/precompiles/cosmos/contract.go'),('readOnly checks of the registry precompile','x/evm/precompiles/erc20_registry/contract.go')],
 harnesses=[hk('ZV_PrecompileStatic','zv_c01.go',60,300,['refused','answered'],'7 methods with a symbolic address; static call from outside, STATICCALL by a contract, CALL by a contract that was called statically')],
 assume=[KENV,HASH]),
dict(id='C03', title='Precompile gas is charged up front and never exceeded',
 statement='Every precompile method charges its base cost plus one gas per input byte: with less gas than that the call runs out of gas and does not fail in another way, with enough gas the call succeeds and reports at least that cost, and no call, whatever its input, reports more gas than it was given except to signal out of gas, nor panics.',
 over=['inputs'], q='all 63-bit gas amounts, every method with symbolic arguments, arbitrary inputs of fixed lengths',
 why='tests call with ample gas only',
 files=['x/evm/precompiles/cosmos/contract.go','x/evm/precompiles/cosmos/types.go','x/evm/precompiles/erc20_registry/contract.go','x/evm/precompiles/erc20_registry/types.go'], mech=[('ExtendedRun of the cosmos precompile','x/evm/precompiles/cosmos/contract.go'),('ExtendedRun of the registry precompile','x/evm/precompiles/erc20_registry/contract.go')],
 harnesses=[hk('ZV_PrecompileGas','zv_c01.go',90,300,['arbitrary input','enough','out of gas'],'10 methods with well-formed input and symbolic gas; inputs of 0, 3, 4 and 36 arbitrary bytes')],
 assume=[KENV,HASH]),
dict(id='C04', title='EVM queries of other modules: allowed only, no leftover state',
 statement='query_cosmos answers exactly the queries on the whitelist that have a route, with the request as given and the answer of that query; any other path and any malformed request is refused without running a query. An answer depends on the request and the state only, never on queries that were made before.',
 over=['inputs','histories'], q='two queries in sequence, symbolic path and field values, present, absent and malformed fields',
 why='tests make one well-formed query; what is left behind by a malformed one needs a history',
 files=['x/evm/precompiles/cosmos/contract.go','x/evm/types/query_cosmos.go'], mech=[('query_cosmos','x/evm/precompiles/cosmos/contract.go'),('ConvertJSONToProto / ConvertProtoToJSON','x/evm/types/query_cosmos.go')],
 harnesses=[hk('ZV_CosmosQuery','zv_c01.go',90,300,['answered','refused'],'two queries, each a path with one symbolic byte and up to 2 fields with symbolic values or a malformed one')],
 assume=[KENV,'the JSON codec and the query router are stand-ins; the JSON codec writes the fields that come before a malformed one, as the real one does']),
dict(id='C05', title='Precompile address answers match the account behind an address',
 statement='is_blocked_address and is_module_address answer for the account that acts as the EVM address (for a shorthand address, for its original account), and to_cosmos_address and to_evm_address are inverses that keep the bytes; longer addresses have no EVM address by conversion.',
 over=['inputs','configurations'], q='every symbolic 20-byte address, every kind of account behind it, blocked or not',
 why='tests use fixed addresses and plain accounts',
 files=['x/evm/precompiles/cosmos/contract.go'], mech=[('is_blocked_address, is_module_address, to_cosmos_address, to_evm_address','x/evm/precompiles/cosmos/contract.go'),('originAddress','x/evm/precompiles/cosmos/contract.go')],
 harnesses=[hk('ZV_AddressMethods','zv_c01.go',60,300,['end','long'],'symbolic address, 5 kinds of account, symbolic blocked address')],
 assume=[KENV]),
dict(id='C06', title='Cosmos effects of a reverted call frame are dropped',
 statement='What a call frame does through the precompiles shares the fate of the frame: messages sent, tokens and stores registered and accounts made in a frame that is reverted are gone, those of frames that are kept happen exactly once, messages in the order in which they were sent; a message that cannot be executed fails the whole call. Account numbers stay unique.',
 over=['inputs','histories'], q='outer and inner frame each kept or reverted, any subset of actions in each, account present or not',
 why='tests never revert a frame that used a precompile',
 files=['x/evm/keeper/precompiles.go','x/evm/keeper/context.go','x/evm/state/snapshot.go','x/evm/precompiles/cosmos/contract.go'], mech=[('precompiles run on the current snapshot','x/evm/keeper/precompiles.go'),('dispatchMessages','x/evm/keeper/context.go')],
 harnesses=[hk('ZV_PrecompileFrames','zv_c06.go',60,300,['kept','reverted','bad message'],'a contract that sends messages (one perhaps unsupported, invalid or failing), creates a contract and calls a second contract that registers a token and a store of a symbolic account and sends a message')],
 assume=[KENV,HASH,'the message router is a recorder']),
dict(id='K03', title='Each denomination has one token contract and each contract one denomination',
 statement='A denomination never seen before gets its own new token contract when it is first minted, and keeps exactly that contract; a mint that is rolled back leaves no token. Different contracts have different denominations, the denomination of a contract leads back to that contract, chain tokens go by their plain denomination and other contracts by evm/ and their address. A written evm/ denomination is accepted exactly when an address follows and names the contract at that address.',
 over=['inputs','histories'], q='all 20-byte contract addresses, all texts of up to 42 characters, all short sequences of mints and burns over known and unknown denominations',
 why='tests map a few fixed denominations',
 files=['x/evm/types/denom.go','x/evm/keeper/erc20.go','x/evm/types/address.go'], mech=[('DenomToContractAddr / ContractAddrToDenom','x/evm/types/denom.go'),('MintCoins and CreateERC20','x/evm/keeper/erc20.go')],
 harnesses=[hk('ZV_DenomContract','zv_k03.go',60,200,['chain token','user token'],'two contracts, each a chain token, a user token or any symbolic address'),
  hk('ZV_DenomText','zv_k03.go',60,200,['address','refused'],'evm/ followed by 1, 39, 40, 41 or 42 symbolic characters (0x in front of the last)'),
  hk('ZV_TokenBirth','zv_k03.go',90,500,['end','unknown'],'2 (thorough 3) mints or burns of symbolic 64-bit amounts, each of 4 denominations of which 2 are known, mints kept or rolled back')],
 assume=[KENV,HASH,'the token and factory contracts are run from their compiled bytecode as embedded in the repository']),
dict(id='K12', title='Balance and supply listings agree with balances',
 statement='For every account the listed balances are exactly the tokens with the amounts that the account holds (a token with balance zero may be missing), each once and the pages sorted by denomination; the listed supplies are exactly those of all registered tokens and equal the sums of the balances, however the tokens moved: through the bank, through the token contract, by mint or burn.',
 over=['inputs','histories'], q='all 64-bit amounts, every set of held tokens, every way of moving one',
 why='tests list balances after fixed mints',
 files=['x/evm/keeper/erc20.go','x/evm/keeper/erc20_stores.go','x/evm/precompiles/erc20_registry/contract.go'], mech=[('IterateAccountBalances / GetPaginatedBalances','x/evm/keeper/erc20.go'),('IterateSupply / GetPaginatedSupply','x/evm/keeper/erc20.go'),('RegisterStore','x/evm/keeper/erc20_stores.go')],
 harnesses=[hk('ZV_Listings','zv_k03.go',120,300,['end','listed'],'2 accounts, 3 tokens (2 of the chain, 1 of a user), symbolic amounts, one movement by bank, contract, mint or burn')],
 assume=[KENV,HASH,'the token contracts are run from their compiled bytecode']),
dict(id='K05', title='Only allowed tokens are registered, and stores only by registered tokens',
 statement='A contract becomes a registered token only through the factory or, when the parameters allow custom tokens, by registering itself (if a list of allowed contracts is set and it is not registered already, only when it is on the list, in hex or bech32). Only the factory registers another contract. A holder store is recorded exactly when the caller is a registered token, for that caller and holder only, and the holder then has an account; no such call registers anything else.',
 over=['inputs','configurations'], q='symbolic callers, accounts and lists, every parameter setting, caller registered or not, for every registering method',
 why='tests register with a fixed configuration',
 files=['x/evm/keeper/erc20_stores.go','x/evm/keeper/erc20.go','x/evm/precompiles/erc20_registry/contract.go'], mech=[('RegisterERC20 / RegisterERC20FromFactory / RegisterStore','x/evm/keeper/erc20_stores.go'),('registry precompile','x/evm/precompiles/erc20_registry/contract.go')],
 harnesses=[hk('ZV_RegisterToken','zv_k05.go',120,400,['factory','refused','store','token'],'list of 0 to 2 contracts (symbolic, hex or bech32), custom tokens on or off, caller fixed, the factory or symbolic, registered before or not; symbolic 20-byte account; 3 methods'),
  hk('ZV_CustomToken','zv_k05.go',30,100,['end'],'a contract registering itself in its constructor, or made by the factory; custom tokens on or off')],
 assume=[KENV,HASH]),
dict(id='K06', title='Contracts see the right block, hashes, origin and caller',
 statement='BLOCKHASH of each block returns the hash that the chain recorded for exactly that block, for the last 256 blocks (fewer when configured to keep fewer), and zero for any other number; hashes are dropped exactly when they leave the configured window. NUMBER, TIMESTAMP, PREVRANDAO, CHAINID, ORIGIN, CALLER and ADDRESS are those of the current block, of the account that sent the transaction, of the direct caller and of the contract.',
 over=['inputs','histories'], q='all heights, stored hashes, requested numbers, header hashes and callers; one block from any state',
 why='tests read a few block hashes at fixed heights',
 files=['x/evm/keeper/keeper.go','x/evm/keeper/context.go','x/evm/abci.go'], mech=[('TrackBlockHash','x/evm/keeper/keeper.go'),('PreBlock','x/evm/abci.go'),('buildBlockContext','x/evm/keeper/context.go')],
 harnesses=[hk('ZV_BlockHash','zv_k06.go',90,600,['inside','outside'],'1 (thorough 2) stored hashes, 1 (thorough 2) blocks, windows 0, 256, 257, 1000; symbolic height, hashes and argument'),
  hk('ZV_BlockContext','zv_k06.go',30,100,['end'],'symbolic caller, height, time, header hash; direct or nested call')],
 assume=[KENV,HASH]),
dict(id='K07', title='Exported state imports to the same state',
 statement='Exporting the EVM state and importing it into an empty chain gives exactly the same state: contract accounts, code and storage, parameters, registered tokens, the holders of each token, denominations and collections with their class and URI, block hashes and the addresses of the chain contracts. Nothing is lost, added or attributed to another account.',
 over=['inputs'], q='all keys, values and addresses, grouping of stores by holder included',
 why='the test round-trips one fixed genesis',
 files=['x/evm/keeper/genesis.go'], mech=[('ExportGenesis / InitGenesis','x/evm/keeper/genesis.go')],
 harnesses=[hk('ZV_GenesisState','zv_k07.go',60,300,['end'],'a real initial state with 3 tokens and 1 (thorough 2) extra storage entries and block hashes, symbolic'),
  hk('ZV_GenesisTokens','zv_k07.go',60,300,['end'],'the same with 1 extra token, 3 (thorough 4) stores of 2 symbolic holders, 2 denominations, 2 collections with and without URI')],
 assume=[KENV,HASH]),
dict(id='K08', title='EVM calls and creations are charged exactly for the gas they use',
 statement='A call or creation that succeeds or reverts charges the gas meter of the transaction exactly what the EVM used, less a refund of at most a fifth of it, starting from what is left on the meter; contracts see that amount. With less gas than needed it fails. Simulation reports the same charge. Cosmos messages sent by contracts run with the gas that is left afterwards. A contract called with some gas runs with no more than that.',
 over=['inputs'], q='all 62-bit gas limits and amounts used before, several programs',
 why='tests use ample gas only; the boundary where gas runs out is one value in 2^64',
 files=['x/evm/keeper/context.go','x/evm/types/gas.go'], mech=[('computeGasLimit and gas consumption of EVMCall / EVMCreate','x/evm/keeper/context.go'),('CalGasUsed','x/evm/types/gas.go')],
 harnesses=[hk('ZV_GasRefundCap','zv_k08.go',30,60,['capped','full'],'all 64-bit balance, rest and refund'),
  hk('ZV_GasCall','zv_k08.go',120,400,['message','out of gas','refund','reverted','simulated'],'7 programs (write, clear, revert, GAS, failing sub-call, message), symbolic limit and gas used before; calls, static calls, simulation'),
  hk('ZV_GasCreate','zv_k08.go',90,300,['created','invalid','out of gas','reverted'],'3 init codes, CREATE and CREATE2, symbolic limit and gas used before'),
  hk('ZV_GasNested','zv_k08.go',30,100,['failed','ran','too little'],'a contract calling another one with a symbolic amount of gas up to 100000')],
 assume=[KENV,HASH,'a revert that leaves exactly no gas is excluded']),
dict(id='T01', title='Ethereum-signed transactions do exactly what was signed',
 statement="A transaction that presents an Ethereum signature is accepted only if it is the very transaction the signer signed for this chain: a single call or creation by the signer with the signed nonce (which is the account's sequence), gas limit, recipient, value, data and access list, paying in the fee token no more than the signed gas price allows and nothing else. A signed Ethereum transaction converts to such a transaction, which is recognised as one and converts back to the transaction it was, hash and signature included; only values that are not whole units of the fee token are refused.",
 over=['inputs'], q='all nonces, gas limits, values, recipients, data bytes, access lists and fees, for every transaction type and several gas prices, fee tokens with 18, 6 and 0 decimals; signed and presented transaction are independent',
 why='the tests convert a few well-formed transactions; forgery is about the ones that differ from what was signed in any one field',
 files=['x/evm/keeper/txutils.go','app/ante/sigverify.go','app/ante/verify.go'], mech=[('ConvertEthereumTxToCosmosTx / ConvertCosmosTxToEthereumTx','x/evm/keeper/txutils.go'),('SigVerificationDecorator','app/ante/sigverify.go')],
 harnesses=[hk('ZV_EthRoundTrip',['tx.go','zv_t01.go'],40,200,['converted','refused'],'symbolic nonce, gas, value, recipient, 2 data bytes, access list of 0 or 1 entry; 3 transaction types; 2 (thorough 4) gas prices; decimals 18, 6, 0'),
  hk('ZV_EthSigned',['tx.go','zv_t01.go'],240,800,['accepted','refused'],'signed: as above, this chain, another or none (legacy); presented: symbolic nonce, gas, value, recipient, data, fee and sequence; call, creation, CREATE2, another message, another sender, two messages; fee in the token, another or both; decimals 18 and 6 (thorough also 0)')],
 assume=[KENV,HASH,'signatures are ideal: only the signature made for a hash verifies for it, and signing hashes of transactions are equal only when every signed field is; protobuf and amino sign modes of the SDK are outside']),
dict(id='A01', title='Gas refunds are exactly the unused share of the fee',
 statement='After a successful Ethereum-signed transaction of a block, the one who paid its fee (the granter if there is one) gets back from the fee collector the refund ratio of the price of the gas it left unused: never more, and less only by rounding. The refund costs no gas, leaves supplies and every other balance alone and never fails; failed transactions, simulations, checks and Cosmos-signed transactions get none.',
 over=['inputs','configurations'], q='all fees of up to 150 bits, several gas limits (21000 to 2^63-1), amounts of gas used and refund ratios, every kind of transaction and payer, all 64-bit balances',
 why='the tests refund one transaction with one ratio and price; rounding, granters and the kinds that get nothing are about all of them',
 files=['app/posthandler/gasrefund.go','x/evm/ante/gas_prices.go'], mech=[('GasRefundDecorator','app/posthandler/gasrefund.go'),('GasPricesDecorator','x/evm/ante/gas_prices.go')],
 harnesses=[hk('ZV_RefundAmount',['tx.go','bank.go','zv_a01.go','zv_a02.go'],60,200,['refunded','too little'],'150-bit symbolic fee, 4 gas limits, 8 amounts of gas used, 4 ratios; payments noted by a stand-in'),
  hk('ZV_GasRefund',['tx.go','bank.go','zv_a01.go','zv_a02.go'],90,400,['refunded','too little','nothing to refund'],'11 kinds of transaction (signature, messages, memo, mode, outcome, payer, granter, fee), 2 (thorough 4) ratios, 2 (3) amounts of gas used, 1 (3) fees; 64-bit symbolic balances of the payer and the fee collector in the real ERC20 contract')],
 assume=[KENV,HASH,'gas limits are below 2^63, as ValidateBasic demands']),
dict(id='A02', title='Sequences go up once per transaction, so none can be replayed',
 statement='A transaction raises the sequence of each of its signers and of nobody else: by one when it is checked, and in a block by at least one and at most the number of its messages; sequences never go down. The first contract a transaction creates is at the address that its sender and its sequence give. This holds whether its messages succeed or fail, for EVM calls and creations, other messages, and senders with long (32-byte) addresses.',
 over=['inputs','histories'], q='all transactions of up to 2 messages by up to 3 accounts over 4 kinds of messages, each succeeding or failing, checked, simulated or executed; all 62-bit sequences',
 why='the sequence is raised and lowered by an ante decorator, the EVM, the message server and a post handler; tests pin each one alone',
 files=['app/ante/sigverify.go','app/posthandler/sequence.go','x/evm/keeper/msg_server.go'], mech=[('IncrementSequenceDecorator','app/ante/sigverify.go'),('SequenceIncrementDecorator','app/posthandler/sequence.go'),('Call, Create and Create2','x/evm/keeper/msg_server.go')],
 harnesses=[hk('ZV_Sequences',['tx.go','zv_a02.go'],120,600,['checked','created','failed','simulated','succeeded'],'1 or 2 (thorough 3) messages, 3 senders (one with a 32-byte address), calls and creations that revert or not by their symbolic input, symbolic sequences; run through ante handler, messages and post handlers the way the SDK does')],
 assume=[KENV,HASH,'the SDK discards the state of failed messages and of post handlers that run after them, and keeps the state of the ante handler (baseapp)']),
dict(id='A03', title='Transactions pay exactly their fee, and all the rest is metered',
 statement='A transaction goes on exactly when its fee is acceptable, granted (if somebody else is named to pay) and there; then exactly the fee moves from who pays it to the fee collector, once. A fee in the fee token alone costs no gas, any other does; everything that follows is metered against the gas limit of the transaction.',
 over=['inputs','configurations'], q='all 64-bit fees and balances, every combination of fee tokens, payer, granter, simulation or not; all amounts of gas used by the rest of the checks',
 why='tests look at one fee on one meter; that the free part is free and nothing else is depends on what follows the decorator',
 files=['app/ante/fee.go','app/ante/ante.go'], mech=[('GasFreeFeeDecorator','app/ante/fee.go')],
 harnesses=[hk('ZV_Fees',['tx.go','bank.go','zv_a02.go','zv_a03.go'],120,400,['paid','refused','out of gas'],'5 payers (signer, other, granted, not granted, oneself), 5 sets of fee denominations, simulated or not, accepted or not by the fee checker; 64-bit symbolic fees and balances, 40-bit symbolic gas of what follows')],
 assume=[KENV,HASH,'the minimum gas price check of OPinit is a stand-in that accepts or refuses']),
dict(id='B01', title='Bank messages obey send settings, blocked addresses and authority',
 statement='Coins move by bank messages and keeper calls exactly when sending of each denomination is enabled, the receiver is not blocked and the sender holds them; what moves is exactly the stated coins. Only modules with the minter permission mint, only burners burn, only the staking permission delegates and undelegates, and nobody mints or burns users tokens. Send settings, parameters and denomination metadata change by the authority only and are read back as set.',
 over=['inputs','configurations'], q='all 64-bit amounts and balances, send settings per denomination and default, blocked receivers, module permissions, senders and receivers',
 why='the tests of x/bank fix one configuration; the rules are about all of them',
 files=['x/bank/keeper/send.go','x/bank/keeper/keeper.go','x/bank/keeper/msg_server.go'], mech=[('EVMSendKeeper','x/bank/keeper/send.go'),('BaseKeeper module functions','x/bank/keeper/keeper.go'),('msgServer','x/bank/keeper/msg_server.go')],
 harnesses=[hk('ZV_BankSend',['bank.go','zv_b01.go'],90,300,['sent','refused'],'64-bit symbolic amounts and balances of 3 denominations'),
  hk('ZV_BankRules',['bank.go','zv_b01.go'],60,300,['sent','refused'],'send settings on, off or default, for each denomination; blocked receivers; single and multi sends'),
  hk('ZV_BankModules',['bank.go','zv_b01.go'],150,600,['pay','collect','delegate','undelegate','between modules','mint','burn',"burn a user's token",'refused'],'5 module accounts with different permissions, all operations, 64-bit symbolic amounts and balances'),
  hk('ZV_BankAdmin',['bank.go','zv_b01.go'],120,400,['set','refused'],'authority or another account; parameters, send settings and their removal')],
 assume=[KENV,HASH]),
dict(id='B02', title='Exported bank state starts a chain with the same balances',
 statement='Exporting the EVM and bank modules and starting a new chain from the result always succeeds and keeps every balance, every supply, the send settings, parameters and metadata. A bank genesis starts a chain exactly when the supply it states is the sum of its balances, and then every account has what the genesis lists.',
 over=['inputs','histories'], q='all 64-bit balances of 3 denominations (also none) of several accounts, send settings, metadata; listed balances and supply',
 why='balances live in the EVM state, which is exported as well; no test exports a chain and imports it',
 files=['x/bank/keeper/genesis.go','x/bank/keeper/send.go','x/evm/keeper/genesis.go'], mech=[('InitGenesis / ExportGenesis','x/bank/keeper/genesis.go'),('initBalances','x/bank/keeper/send.go')],
 harnesses=[hk('ZV_BankExport',['bank.go','zv_k07.go','tx.go','zv_a02.go','zv_b02.go'],200,700,['imported','long'],'2 (thorough 3) denominations, balances of several accounts of 64 bits or none, an account with a 32-byte address that signed or not, export of x/evm and x/bank and import in a new environment'),
  hk('ZV_BankGenesis',['bank.go','zv_k07.go','tx.go','zv_a02.go','zv_b02.go'],60,200,['started','refused'],'2 accounts, 2 denominations, 64-bit symbolic balances; supply not stated, the sum, or any')],
 assume=[KENV,HASH]),
dict(id='I01', title='IBC packets call only allowed contracts, as their own account, with their funds',
 statement='A transfer packet whose memo carries a call is refused unless the contract (hex or bech32) is allowed and is the receiver; otherwise its funds or NFTs go to the account derived from local channel and remote sender, the rest of the packet is untouched, and exactly one call of the contract runs as that account with the input and value of the memo, able to take exactly what the packet brought. The packet succeeds exactly when transfer and call do. Any other packet passes unchanged and runs nothing.',
 over=['inputs','configurations'], q='tokens from elsewhere, of the chain, of contracts and vouchers coming back; NFTs likewise; memo forms; senders; access lists (default, listed, both ways); failing transfers and contracts',
 why='tests try one token, one address form and one access list',
 files=['app/ibc-hooks/receive.go','app/ibc-hooks/util.go','app/ibc-hooks/hooks.go'], mech=[('onRecvIcs20Packet / onRecvIcs721Packet','app/ibc-hooks/receive.go'),('DeriveIntermediateSender, LocalDenom','app/ibc-hooks/util.go'),('checkACL','app/ibc-hooks/hooks.go')],
 harnesses=[hk('ZV_HookReceive',['zv_i01.go'],150,400,['called','refused','no hook','transfer failed','call failed'],'4 kinds of tokens, 2 senders, 2 address forms, value or none, 6 memo forms; symbolic access list and failures'),
  hk('ZV_HookReceiveNFT',['zv_i01.go'],100,300,['called','refused','no hook','transfer failed','call failed'],'3 kinds of collections, 2 tokens and one that is not in the packet, 4 memo forms; symbolic access list and failures')],
 assume=[KENV,HASH,'the transfer modules below the hooks are a stand-in that gives the receiver of the packet its funds, or fails','JSON of packets and memos is read and written by the engine with encoding/json itself, on concrete text']),
dict(id='I02', title='IBC callbacks tell the right contract once and never block a packet',
 statement='When a transfer sent from here is acknowledged or times out, the application settles it first; then the contract named in the memo, if allowed, is called exactly once, as the sender of the packet, with exactly the id of the memo and whether the transfer succeeded. If the memo is malformed, the contract is not allowed or fails, nothing is left of the call and the packet is settled all the same; if the application fails, nobody is called.',
 over=['inputs','configurations','fault_sequences'], q='fungible and NFT packets, success, failure and timeout, memo forms, ids up to 64 bits, access lists, failing contracts and applications',
 why='tests use one small id and a contract that works',
 files=['app/ibc-hooks/ack.go','app/ibc-hooks/timeout.go','app/ibc-hooks/util.go'], mech=[('onAckIcs20Packet / onAckIcs721Packet','app/ibc-hooks/ack.go'),('onTimeoutIcs20Packet / onTimeoutIcs721Packet','app/ibc-hooks/timeout.go'),('validateAndParseMemo','app/ibc-hooks/util.go')],
 harnesses=[hk('ZV_HookCallback',['zv_i01.go'],150,400,['callback','no callback','application failed'],'3 ids (1, 2^53+1, 2^64-1), 2 address forms, 5 memo forms, 2 kinds of packets, 3 outcomes; symbolic access list and failures')],
 assume=[KENV,HASH,'the transfer modules below the hooks are a stand-in that settles the packet or fails','JSON of packets and memos is read and written by the engine with encoding/json itself, on concrete text; acknowledgements likewise']),
dict(id='B03', title='Bank queries answer exactly what the state holds',
 statement='Balance, spendable balance and supply queries answer the exact amount, zero for a denomination that does not exist; the paged listings of balances, supplies and send settings give everything once, whatever the size and the direction of the pages, with exact amounts. Metadata is that which was set, else the name and symbol of the token contract, and both metadata queries agree. Malformed requests are refused and no query changes state.',
 over=['inputs','histories'], q='amounts up to 64 bits, accounts, denominations with and without a token, page sizes, directions, settings, malformed addresses',
 why='tests read one page of one account',
 files=['x/bank/keeper/grpc_query.go','x/bank/keeper/view.go','x/bank/keeper/keeper.go','x/evm/keeper/erc20.go'], mech=[('BaseKeeper.AllBalances / TotalSupply / DenomMetadata / SendEnabled','x/bank/keeper/grpc_query.go'),('GetPaginatedBalances / GetPaginatedSupply / GetMetadata','x/evm/keeper/erc20.go')],
 harnesses=[hk('ZV_BankQueries',['bank.go','zv_b03.go'],120,300,['one','pages','next page','refused'],'2 accounts, 3 tokens (2 of the chain, 1 of a user), symbolic amounts, pages of 1 to 3, both directions'),
  hk('ZV_BankSettings',['bank.go','zv_b03.go'],100,300,['asked','listed','set','token'],'3 denominations with symbolic settings, pages of 1 or 2, metadata set or not')],
 assume=[KENV,HASH]),
dict(id='K09', title='EVM queries answer as a transaction would and change nothing',
 statement='A call query fails exactly when the same call or creation in a transaction would, with the same error, and otherwise answers the same return data, logs and gas, seeing the sender, value and state of its request; whatever it runs, messages to the chain included, leaves no trace. Code, storage, token, factory and parameter queries answer the current state; a contract may be written in hex or bech32, and a storage key may be short.',
 over=['inputs','programs'], q='senders, values, input, contracts that write, log, revert or send messages, creations, addresses and slots',
 why='tests query one counter contract',
 files=['x/evm/keeper/query_server.go','x/evm/keeper/context.go'], mech=[('queryServerImpl.Call','x/evm/keeper/query_server.go'),('queryServerImpl.State / Code / ContractAddrByDenom / Denom','x/evm/keeper/query_server.go')],
 harnesses=[hk('ZV_QueryCall',['zv_k09.go'],100,300,['called','created','fails'],'4 programs, 3 senders, call or creation, 64-bit value and balance, input with 2 symbolic bytes; the same is executed as a transaction and compared'),
  hk('ZV_QueryState',['zv_k09.go'],100,300,['code','written','short','denom','factory','params'],'2 symbolic bytes in slots and values; 3 tokens; symbolic parameters')],
 assume=[KENV,HASH,'queries with trace options are not covered']),
dict(id='K10', title='NFT classes and tokens move exactly as stated',
 statement='A class keeps the one contract made for it, and name, URI and contract of a class lead to each other; a contract of a user is the class evm/ with its address. Minting makes exactly the stated tokens with their URIs for the receiver, and fails if one exists; transfers and burns happen exactly when the sender owns every token, and move or remove exactly these. Owners, balances and URIs of all other tokens stay, and unknown classes and malformed token names are refused.',
 over=['inputs','histories'], q='classes of this chain, of IBC and of contracts, owners (long accounts too), tokens, URIs, sequences of mint, transfer, burn, update',
 why='tests use one token and its owner',
 files=['x/evm/keeper/erc721.go','x/evm/types/collection.go'], mech=[('ERC721Keeper.CreateOrUpdateClass / Mints / Transfers / Burns','x/evm/keeper/erc721.go'),('TokenIdToBigInt / ContractAddressFromClassId','x/evm/types/collection.go')],
 harnesses=[hk('ZV_NFTs',['zv_k07.go','zv_k10.go'],120,300,['minted','moved','burnt','updated','refused','end'],'2 classes (one of IBC), 2 tokens each, 3 accounts (one of 32 bytes), symbolic URIs, one operation on 1 or 2 tokens after up to 3 mints; the real collection contract'),
  hk('ZV_NFTNames',['zv_k07.go','zv_k10.go'],60,100,['contract','unknown class','unknown token','user','decimal'],'classes by address with and without 0x, 4 unknown classes, 7 malformed or out of range token names, decimal numbers, a user\'s collection')],
 assume=[KENV,HASH]),
]
