#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

SDB = "x/evm/state/statedb.go"; CTX = "x/evm/keeper/context.go"; ERC = "x/evm/keeper/erc20.go"

p("E01", "Reverted call frames leave no trace, surviving ones are kept whole",
  "When a contract call, create or delegatecall inside a transaction reverts or fails, every effect of that frame and of the frames it started (storage, native balances, created contracts, nonces, self-destructs, logs, token balances and token registrations) disappears, also when the caller catches the failure and goes on. Every effect of every frame that did not fail, before and after the failed one, is committed with the transaction.",
  ["programs", "histories"], "all nestings of calls, creates and delegatecalls with reverts and invalid opcodes at any depth, over any prior history",
  "The unit tests revert at most a single snapshot in isolation and never observe what is committed after a caught revert; the property ranges over all nestings of frames.",
  [SDB, "x/evm/state/snapshot.go", CTX],
  [("snapshot stack of cached contexts", SDB + " Snapshot/RevertToSnapshot/Commit"), ("EVM call entry points", CTX + " EVMCallWithTracer/EVMCreateWithTracer")])

p("E02", "Transient storage is private to a contract and lives for one execution",
  "A value written with TSTORE is read back by TLOAD only by the same contract (same storage context) within the same EVM execution, is undone when the writing frame reverts, and every later execution, including one started by a message the contract requested, starts with all transient slots zero.",
  ["programs", "histories"], "all interleavings of TSTORE/TLOAD and calls between contracts, in sequences of transactions of one block",
  "Tests write and read one slot of one contract; cross-contract, revert and cross-execution isolation need programs and histories.",
  [SDB, CTX], [("transient store keyed by execution", SDB + " SetTransientState/GetTransientState"), ("execution index", SDB + " NewStateDB")])

p("E03", "Cosmos messages requested by contracts: authorised, surviving, ordered, atomic",
  "After an EVM execution exactly the cosmos messages requested by frames that did not revert are executed, in the order in which they were requested, and only if every signer of the message is the contract that made the request. If one of them fails the whole EVM message fails and nothing of it is kept.",
  ["programs", "histories"], "all programs that request any mix of valid, foreign-signed and failing messages from frames of any depth which later revert or not",
  "Tests request one message from one frame; order, caught reverts, foreign signers and failure of a later message are combinations they do not reach.",
  ["x/evm/precompiles/cosmos/contract.go", CTX, SDB],
  [("execute_cosmos", "x/evm/precompiles/cosmos/contract.go ExtendedRun"), ("dispatch after commit", CTX + " dispatchMessages")])

p("E04", "The logs of an execution are exactly those of its surviving frames, in order",
  "The logs returned for a call or create, and the logs published in its events, are exactly the logs emitted by frames that did not revert, in emission order, each with the emitting contract, topics and data, including the token transfer log of every native value transfer.",
  ["programs"], "all programs that emit logs from any frames, with reverts at any depth, and sequences of such executions in one block",
  "Tests look at a fixed single log; order and survival across nested reverts is a property of all programs.",
  [SDB, CTX, "x/evm/types/log.go"], [("log buffer", SDB + " AddLog/Logs"), ("response and events", CTX + " EVMCallWithTracer")])

p("E05", "Contract creation and self-destruction take effect only when due",
  "A successful CREATE/CREATE2 yields a contract with the deployed code at the address determined by creator nonce (or salt and code), never over an existing contract, and the creator's nonce grows by one per attempt that starts. A contract that self-destructs in the execution that created it is gone afterwards (no code, storage, nonce or balance, and its address can be created again fresh); any other self-destruct only moves the balance to the beneficiary.",
  ["programs", "histories"], "all programs of create, create2, self-destruct, calls to dead or not yet existing contracts, over multi-transaction histories",
  "Tests destroy one contract once; re-creation, destruction in reverted frames and post-destruction transfers need multi-step histories.",
  [SDB], [("create", SDB + " CreateContract/CreateAccount/SetCode"), ("EIP-6780 destruct", SDB + " Selfdestruct6780/SelfDestruct/Commit")])

p("E06", "Native value moves exactly as the EVM program says and is never created",
  "A call, create or self-destruct carrying native value moves exactly that value from payer to payee, a transfer exceeding the balance fails only the frame that tried it, balances read by contracts equal the bank balance at that point, and the native supply changes only by what self-destruction burns.",
  ["programs", "histories"], "all programs with value-carrying calls, creates and self-destructs, with failing and reverted frames",
  "Tests make single transfers; conservation over nested and reverted transfers quantifies over programs.",
  [CTX, SDB], [("CanTransfer/Transfer", CTX + " buildBlockContext"), ("AddBalance/SubBalance/GetBalance", SDB)])

p("E07", "Queries and simulations never change the state and predict the execution",
  "Running a contract call or create through the query interface leaves every store of the chain unchanged and returns the same result, logs and success or failure that the same execution would have as a message at that state.",
  ["programs", "histories"], "all programs, run as a query at any point of a history",
  "Tests query once and do not compare the state or the outcome with the execution.",
  ["x/evm/keeper/query_server.go"], [("Call query", "x/evm/keeper/query_server.go Call")])

p("B01", "Coins are conserved: supply equals balances, mint and burn are exact",
  "For every denom the total supply equals the sum of all account balances after every operation. Minting raises the recipient's balance and the supply by exactly the amount, burning lowers the holder's balance and the supply by exactly the amount or fails without effect, and no other operation changes the supply.",
  ["histories", "inputs"], "all sequences of mint, burn, send, module transfer, ERC20 transfer/mint/burn/approve operations over several denoms and accounts, including failing ones",
  "Tests check single operations on fresh state; conservation is an invariant of histories across the two faces (bank and ERC20) of each coin.",
  [ERC, "x/bank/keeper/keeper.go"], [("MintCoins/BurnCoins", ERC), ("module mint/burn", "x/bank/keeper/keeper.go")])

p("B02", "The bank view and the ERC20 view of every coin always agree",
  "For every account and denom the bank balance (single, all-balances, page by page and iteration) equals the balance reported by the denom's ERC20 contract, the bank supply (single, total, page by page and iteration) equals the contract's total supply, a denom without contract has balance and supply zero, and a coin an account holds is always listed among its balances.",
  ["histories"], "all histories mixing bank messages and ERC20 contract calls",
  "Tests compare one view after one operation; agreement must hold after any mix of operations on either side.",
  [ERC, "x/bank/keeper/view.go", "x/bank/keeper/grpc_query.go", "x/evm/keeper/erc20_stores.go"],
  [("GetBalance/GetSupply/pagination/iteration", ERC), ("store registration", "x/evm/keeper/erc20_stores.go RegisterStore")])

p("B03", "Bank sends are exact, all-or-nothing and respect send restrictions",
  "A successful send moves exactly the listed coins from sender to recipient and touches no other balance; a send with an insufficient balance, a send-disabled denom or a blocked recipient fails and changes nothing. Multi-coin sends are atomic. Restrictions that modules hang on the bank are asked in their order about everything it sends: nothing moves when one refuses, and the coins go, and are announced to go, to the recipient they name.",
  ["histories", "inputs"], "all sends between user, contract and module accounts, multi-coin, with any send-enabled settings and any hung restrictions, at any point of a history",
  "Tests cover single examples of each rule; their combinations and atomicity over several denoms are not covered.",
  ["x/bank/keeper/msg_server.go", "x/bank/keeper/send.go", ERC], [("MsgSend", "x/bank/keeper/msg_server.go"), ("SendCoins", "x/bank/keeper/send.go")])

p("B04", "Each denom has one ERC20 contract for ever, and foreign tokens cannot be minted",
  "The first mint of a denom creates exactly one ERC20 contract; from then on denom and contract determine each other and never change, and contracts unknown to the chain map to a denom derived from their address. Coins of such contract-derived denoms can never be minted by modules, and burning them moves exactly the burned coins to the community pool.",
  ["histories"], "all histories of mints, burns, token deployments and registrations over several denoms",
  "Tests create one denom; stability, uniqueness and the mixed-denom burn rule range over histories.",
  [ERC, "x/evm/types/denom.go"], [("CreateERC20", ERC), ("denom conversion", "x/evm/types/denom.go"), ("burn to community pool", ERC + " BurnCoins")])

p("B05", "Only permitted tokens become coins",
  "A token contract appears among the chain's coins only if the factory created it or, when custom tokens are allowed (and listed, if an allow list is set), it registered itself; only the factory can register on behalf of a token, and an account's coin list contains only registered tokens.",
  ["histories", "configurations"], "all sequences of registration attempts by factory, tokens and strangers under all settings of the two parameters",
  "Tests exercise two settings; the combination of parameter changes and registration attempts is a history property.",
  ["x/evm/keeper/erc20_stores.go", "x/evm/precompiles/erc20_registry/contract.go"],
  [("Register/RegisterFromFactory/RegisterStore", "x/evm/keeper/erc20_stores.go")])

p("T01", "Every transaction uses its signer's next nonce, once",
  "A transaction is accepted only if its nonce equals the signer's current sequence, and including a transaction in a block raises that signer's sequence by exactly the number of its EVM executions (one for an ordinary or failed transaction), whether it succeeds or fails. No transaction is ever executed twice.",
  ["histories"], "all sequences of Ethereum and cosmos transactions (calls, creates, failing, replayed, out of order, several senders) over several blocks",
  "Tests run single decorators on one transaction; the sequence bookkeeping is split over ante handler, EVM and post handler and only a history shows whether it adds up.",
  ["app/ante/sigverify.go", "app/posthandler/sequence.go", "x/evm/keeper/msg_server.go"],
  [("sequence increment/decrement", "app/ante/sigverify.go IncrementSequenceDecorator"), ("restore on failure", "app/posthandler/sequence.go"), ("call nonce", "x/evm/keeper/msg_server.go increaseNonce")])

p("T02", "Fees: exactly the agreed fee is charged and the unused part is refunded",
  "An included transaction charges its fee payer exactly its fee; a successful Ethereum transaction gives back exactly the configured fraction of the unused gas at the transaction's gas price, from the fee collector, and a failed or cosmos-signed one gives back nothing. Nobody else's balance is affected by fees.",
  ["histories", "configurations", "inputs"], "all transactions (types, gas limits, gas prices, success or failure) under all refund ratios",
  "No test runs a transaction with its fee end to end; the amount depends on gas used, ratio and price together.",
  ["app/ante/fee.go", "app/posthandler/gasrefund.go", "x/evm/ante/gas_prices.go"],
  [("fee deduction", "app/ante/fee.go"), ("refund", "app/posthandler/gasrefund.go"), ("gas price", "x/evm/ante/gas_prices.go")])

p("T03", "Only the key holder can act for an account, and only as signed",
  "A transaction carrying an Ethereum signature is accepted only if that signature, over exactly the Ethereum transaction described (chain id, nonce, gas, prices, recipient, value, data, access list), was made by the key of the account it acts for; changing any of these fields, or the fee it implies, makes it rejected without effect. The same holds for transactions signed as cosmos transactions, in whatever sign mode, and a key of several members acts only if as many of them as it asks for signed.",
  ["inputs"], "all Ethereum transactions and all single-field modifications of their cosmos encoding; cosmos transactions in all sign modes, by single keys and sets of members",
  "Tests verify one good signature; the rejection of every modification is a statement over all inputs.",
  ["app/ante/verify.go", "app/ante/sigverify.go", "x/evm/keeper/txutils.go"],
  [("signature check", "app/ante/verify.go verifySignature"), ("reconstruction", "x/evm/keeper/txutils.go ConvertCosmosTxToEthereumTx")])

p("T04", "Ethereum transactions survive conversion and are executed as signed",
  "Converting an Ethereum transaction to its cosmos form and back yields the identical transaction and sender, its value is charged as the exact equivalent in the fee token (or the conversion is refused when precision would be lost), and its fee covers gas limit times gas price.",
  ["inputs", "configurations"], "all transaction types and field values, for all fee token decimals",
  "Tests convert three sample transactions under one configuration.",
  ["x/evm/keeper/txutils.go", "x/evm/types/decimals.go"], [("conversion", "x/evm/keeper/txutils.go"), ("unit conversion", "x/evm/types/decimals.go")])

p("T05", "A failed transaction has no effect beyond fee and nonce",
  "When any message of a transaction fails, for whatever reason (revert, out of gas, invalid input, failing requested message), the state after the block differs from the state without the transaction only by the fee paid and the signer's nonce.",
  ["histories", "fault_sequences"], "all transactions failing at any message or inner call, over any history",
  "Tests check error returns of message handlers, not the state of the chain after a block with failing transactions.",
  ["app/posthandler/sequence.go", CTX, "x/evm/keeper/msg_server.go"], [("message execution", "x/evm/keeper/msg_server.go"), ("post handler", "app/posthandler/sequence.go")])

p("N01", "NFT classes and NFT contracts correspond one to one, ownership is consistent",
  "Each NFT class has one contract and each contract one class for ever; after every operation the owner, uri and existence reported by the NFT keeper equal those of the class contract and those expected from the history of mints, transfers and burns.",
  ["histories"], "all sequences of class creation, mint, burn and transfer over several classes, ids and owners, including invalid ones",
  "Tests perform each operation once on a single class.",
  ["x/evm/keeper/erc721.go"], [("class and token operations", "x/evm/keeper/erc721.go")])

p("N02", "NFT batches are all-or-nothing and only the owner's tokens move",
  "Minting, burning or transferring a batch of NFTs affects exactly the listed tokens or, if any of them is missing (or, when minting, already there), duplicated or not at the disposal of the given owner, fails and leaves nothing behind. Nobody loses a token except by an act or permission of its owner.",
  ["inputs", "histories"], "all batches with any subset of invalid members",
  "Tests use valid batches only.",
  ["x/evm/keeper/erc721.go"], [("Mints/Burns/Transfers", "x/evm/keeper/erc721.go")])

p("I01", "IBC receive hooks run only as the packet's intermediate sender and atomically",
  "An incoming token or NFT packet whose memo asks for an EVM call executes that call, with the received tokens, as an address derived from channel and sender and never as the original sender or receiver; if the call, the memo or the permission is bad, the packet is answered with an error and no token moves and no call effect remains. Packets without such a memo are processed as if the hook did not exist.",
  ["inputs", "histories"], "all packets: valid, malformed and foreign memos, allowed and disallowed contracts, succeeding and failing calls, over histories",
  "Tests send a handful of packets; the rules must hold for every memo and call outcome.",
  ["app/ibc-hooks/receive.go", "app/ibc-hooks/util.go", "app/ibc-hooks/hooks.go"], [("receive hooks", "app/ibc-hooks/receive.go"), ("sender derivation", "app/ibc-hooks/util.go")])

p("I02", "IBC callbacks reach only the contract that asked, once per outcome",
  "For an outgoing packet whose memo registers an async callback, the acknowledgement (with its success flag) or the timeout is delivered exactly to the registered contract if that contract is allowed, otherwise to nobody, and a failing callback never blocks the packet's own acknowledgement or refund.",
  ["inputs", "histories", "fault_sequences"], "all outcomes (success ack, error ack, timeout) for all memos and permissions, with succeeding and failing callbacks",
  "Tests cover one contract with one outcome each.",
  ["app/ibc-hooks/ack.go", "app/ibc-hooks/timeout.go"], [("ack", "app/ibc-hooks/ack.go"), ("timeout", "app/ibc-hooks/timeout.go")])

p("X01", "The Ethereum index describes each block exactly",
  "After a block is committed, every Ethereum transaction in it and nothing else is found by hash and by position with a receipt whose status, gas, cumulative gas, logs, contract address and positions match the execution, the block is found by number and hash with matching header, and hash mappings between the two transaction forms are inverse to each other.",
  ["histories"], "all sequences of blocks with any mix of successful, failed, cosmos and Ethereum transactions",
  "Tests index one transaction in one block and look up by hash.",
  ["indexer/abci.go", "indexer/reader.go", "indexer/utils.go"], [("indexing", "indexer/abci.go ListenFinalizeBlock"), ("reading", "indexer/reader.go")])

p("X02", "The index survives restarts and never shows uncommitted blocks as durable",
  "After a stop at any point and a restart from the same databases the index answers for all blocks whose commit was reported exactly as before, and a block whose indexing had not been committed is indexed correctly when it is executed again.",
  ["crash_points", "histories"], "all stop points between the execution and commit of blocks",
  "No test restarts the application.",
  ["indexer/store.go", "indexer/abci.go"], [("cache store", "indexer/store.go"), ("commit", "indexer/abci.go ListenCommit")])

p("J01", "The transaction pool forwards each sender's transactions in nonce order",
  "Raw transactions submitted in any order, by any number of parallel clients, are handed to the node in gap-free nonce order per sender, each at most once and never before its predecessors; one with a gap is queued and forwarded as soon as the gap is filled, one below the account's next nonce is refused, a newer one replaces a queued one of its nonce; each submitter gets the result of its own transaction, and while the queue has place senders do not affect each other. The pool's content, status and pending nonces, and the announcements of pending transactions to filters and subscribers, show exactly this.",
  ["schedules", "histories", "concurrency"], "all submission orders and interleavings of several senders, with refusals, lost connections and blocks in between",
  "Tests do not submit out of order or in parallel.",
  ["jsonrpc/backend/tx.go"], [("queue", "jsonrpc/backend/tx.go SendTx/SendRawTransaction"), ("locks", "jsonrpc/backend/backend.go"), ("views", "jsonrpc/backend/txpool.go"), ("announcements", "indexer/mempool.go")])

p("J02", "JSON-RPC reads show the chain as it is at the block that was asked for",
  "For every committed block the JSON-RPC reads (block by number, hash and 'latest', transaction counts, transactions by hash and position, raw transactions, receipts, hash translations, balances, nonces, code, storage and eth_call at that block) answer exactly what the chain contained after that block, logs by range, emitter and topic are found completely, once and in order, and installed filters report every new block and matching log exactly once, in order, for as long as they are asked within the filter timeout.",
  ["histories", "inputs"], "all sequences of blocks with any mix of transactions, and all queries on them, at any block of the history and after restarts",
  "Tests ask for a single block with one transaction; ranges, filters and states of past blocks need histories.",
  ["jsonrpc/backend/block.go", "jsonrpc/backend/tx.go", "jsonrpc/backend/eth.go", "jsonrpc/namespaces/eth/filters/filters.go", "jsonrpc/namespaces/eth/filters/api.go"],
  [("reads of blocks and transactions", "jsonrpc/backend"), ("logs and filters", "jsonrpc/namespaces/eth/filters")])

p("J03", "What JSON-RPC tells of fees is what the chain charges and has charged",
  "eth_gasPrice is the least price the pool admits (a transaction offering it is admitted, one offering clearly less is not) and the base fee of the next block; eth_feeHistory tells, for every range of past blocks and any percentiles, exactly the base fees those blocks had, then that of the next, and rewards by share of gas; eth_getBalance and BASEFEE at a past block are in the fee coin, decimals and price of that block, however fee coin and prices have changed since. Malformed queries are refused.",
  ["histories", "inputs", "configurations"], "all histories of fee coins, least prices and blocks of transactions of all types and prices, all ranges and percentiles",
  "No test changes the fee coin or price after blocks have been made, and no test asks for a fee history.",
  ["jsonrpc/backend/feehistory.go", "jsonrpc/backend/gas.go", "jsonrpc/backend/eth.go", "indexer/abci.go", CTX],
  [("FeeHistory, resolveBlockRange, processBlock", "jsonrpc/backend/feehistory.go"), ("GasPrice", "jsonrpc/backend/gas.go"), ("GetBalance", "jsonrpc/backend/eth.go"), ("BaseFee", CTX)])

p("W01", "Contracts see exactly the recorded block hashes of the configured window",
  "BLOCKHASH for a block inside the retention window (and at most 256 back) returns the hash recorded for that block, and zero for any other block; recording a block never disturbs the other hashes of the window.",
  ["histories", "configurations"], "all block heights and window sizes, including window changes",
  "Tests record a few blocks with one window.",
  ["x/evm/keeper/keeper.go", "x/evm/abci.go", CTX], [("TrackBlockHash", "x/evm/keeper/keeper.go"), ("pre-blocker", "x/evm/abci.go"), ("BLOCKHASH", CTX)])

p("W02", "Contracts see the true block and transaction they run in",
  "NUMBER, TIMESTAMP, CHAINID, PREVRANDAO, BASEFEE, GASPRICE, ORIGIN and CALLER seen by a contract are those of the running block, chain and transaction: the base fee is the chain's least gas price and the gas price the one the transaction pays, both in the running fee coin and scaled by its decimals, the origin is the EVM address of the signer at every call depth, whatever parameters and prices have been before.",
  ["histories", "configurations"], "all blocks, fee coins and their decimals, gas prices, senders of both address lengths, direct, nested and read-only calls",
  "Tests check the gas price and base fee for one coin.",
  [CTX, "x/evm/keeper/context_utils.go", "x/evm/types/chain_config.go"], [("buildBlockContext", CTX), ("buildTxContext", CTX), ("baseFee", "x/evm/keeper/context_utils.go")])

p("P01", "Chain parameters change only by the authority and only to valid values",
  "EVM parameters change only through the module authority and only as a whole to values that validate, with a fee denom whose token exists and can be minted and burned by the chain; a refused change leaves all parameters and balances as they were. Descriptions of coins, too, are given by the authority alone and only if valid; a coin that was given none is described as its contract says, and every query tells the same.",
  ["inputs", "histories"], "all update attempts by any account with any mix of valid and invalid values",
  "Tests make one valid and one unauthorised update.",
  ["x/evm/keeper/msg_server.go", "x/evm/types/params.go", "x/bank/keeper/custom_msg_server.go", "x/bank/keeper/grpc_query.go"], [("UpdateParams", "x/evm/keeper/msg_server.go"), ("Validate", "x/evm/types/params.go")])

p("P02", "With a publisher list set, only listed accounts deploy contracts",
  "When the list of allowed publishers is not empty, contract creation messages from any account not on the list are refused without effect, through both create forms; with an empty list everyone may deploy.",
  ["histories", "configurations"], "all sequences of list changes and create/create2 attempts by any account",
  "Tests check one allowed and one refused sender for one list.",
  ["x/evm/keeper/msg_server.go"], [("publisher check", "x/evm/keeper/msg_server.go Create/Create2")])

p("P03", "Views of the chain for contracts tell the state they run on, nothing else",
  "The views of the cosmos precompile (kind of an account, forms of addresses, coins and their contracts, queries to the price oracle) answer every call exactly according to the state the caller runs on, at any call depth, in transactions as in queries of present and past states; malformed, unlisted or underpaid calls fail; and no answer depends on other calls, failed ones or those that other transactions and queries make at the same time.",
  ["inputs", "histories", "schedules"], "all programs of view calls in transactions and queries at any height, running at the same time, over all histories of prices and coins",
  "Tests call each view once, well-formed, one at a time; leaking and racing requests need failures before and company.",
  ["x/evm/precompiles/cosmos/contract.go", "x/evm/types/query_cosmos.go", "x/evm/types/denom.go"],
  [("ExtendedRun", "x/evm/precompiles/cosmos/contract.go"), ("ConvertJSONToProto, ConvertProtoToJSON", "x/evm/types/query_cosmos.go")])

p("P04", "Deployments land at their own address with their own code, never over others",
  "A deployment, through either message form by accounts of both address lengths, by request of a contract or from contract code, puts exactly the code its constructor returned at the address that its creator and count or its creator, salt and program determine, keeps the coins that were sent there before, and counts once. It fails without effect where there is a contract already; no later deployment, payment or self-destruction changes the code of a contract that stays, and an access list makes no difference.",
  ["histories", "inputs"], "all sequences of deployments of working and failing constructors, payments to addresses not yet used, calls and self-destructions",
  "Tests deploy fresh contracts by one kind of account.",
  ["x/evm/keeper/msg_server.go", CTX, "x/evm/state/statedb.go"], [("Create, Create2", "x/evm/keeper/msg_server.go"), ("EVMCreateWithTracer, NextContractAddress", CTX), ("CreateContract, GetStorageRoot, Commit", "x/evm/state/statedb.go")])

p("A01", "Long cosmos addresses and their EVM addresses never mix up accounts",
  "A 32-byte account acts in the EVM under one fixed 20-byte address; coins sent to either form are the same coins, two different accounts never share an EVM address, and an address already in use by another account is refused.",
  ["histories", "inputs"], "all sequences of sends, calls and queries by accounts of both lengths including colliding ones",
  "Tests create one such account.",
  ["x/evm/keeper/address.go", "x/evm/types/auth.go"], [("convertToEVMAddress", "x/evm/keeper/address.go")])

p("G01", "Export and import of the state preserves everything observable",
  "Exporting the application state after any history and starting a fresh chain from the export succeeds and yields the same accounts, balances and supplies, contracts, storage, token registrations, denom mappings, NFT classes, send restrictions, parameters and block hashes: everything continues as if nothing had happened, and a second export equals the first.",
  ["histories"], "all histories of deployments, token and NFT operations",
  "Tests round-trip an empty or hand-written genesis.",
  ["x/evm/keeper/genesis.go", "x/bank/keeper/genesis.go", "app/export.go", "app/modules.go"], [("InitGenesis/ExportGenesis", "x/evm/keeper/genesis.go"), ("initBalances", "x/bank/keeper/send.go"), ("ExportAppStateAndValidators", "app/export.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
