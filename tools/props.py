RAPID = "property-based testing (rapid): "
PROPS = [
dict(id="C01", title="Wire encoding is lossless and decoding is total",
 statement="Every block, header, transaction, receipt, cross-shard deposit, peer-to-peer message and cluster message that is encoded decodes back to an equal value and uses up exactly its own bytes. Decoding an arbitrary byte string either returns an error or a value that encodes and decodes to itself again; it never panics and never allocates memory out of proportion to the input.",
 over=["inputs"], q="all values of every wire type; all byte strings, in particular truncated, extended and mutated encodings",
 why="The tests encode a few fixed values per type; they cannot range over field contents, list lengths, big-integer widths or hostile byte strings.",
 files=["serialize/serializer.go","serialize/deserializer.go","serialize/bytebuffer.go","serialize/typecache.go","core/types/minorblock.go","core/types/rootblock.go","core/types/transaction.go","core/types/token.go","core/types/cross_shard_transaction.go","core/types/special_rlp.go","p2p/p2p_commands.go","cluster/rpc/grpc_types.go"],
 mech=[("reflective encoder/decoder with length prefixes","serialize/serializer.go, serialize/deserializer.go"),("custom encodings of token balances, transactions, big integers","core/types/token.go, core/types/transaction.go, serialize/utils.go")],
 tech=RAPID+"round trip over generated values of every wire type, mutation fuzzing of encodings", note="Generated values of 60+ wire types plus mutated/truncated/random byte strings; oracle is structural equality after a round trip and error-or-fixpoint on hostile input.", run={"oom_is_violation": True}),

dict(id="C02", title="Hashes bind every consensus field of a block and its whole body",
 statement="Two root headers, minor headers or block metadata have the same hash only if all their fields are equal, and the hash that mining works on ignores exactly the seal fields (nonce and mix digest, and for root blocks the signature). The list commitment in a header is different for every different list, so changing, reordering, duplicating, adding or dropping a transaction or minor header is detected.",
 over=["inputs"], q="all headers, metadata and lists, and all single- and multi-field changes to them",
 why="Tests compare a handful of fixed hashes; they cannot show that each field and each list change is covered.",
 files=["core/types/minorblock.go","core/types/rootblock.go","core/types/derive_sha.go","core/types/utils.go"],
 mech=[("header hash, seal hash, meta hash","core/types/minorblock.go, core/types/rootblock.go"),("merkle root over serialized items with length","core/types/derive_sha.go")],
 tech=RAPID+"metamorphic field and list mutation against hash and merkle reference", note="Every field mutated by reflection in generated headers; merkle roots compared with an independent reference implementation and between mutated lists."),

dict(id="C03", title="A transaction acts only for the key that signed exactly its contents",
 statement="For every key and transaction contents, in each supported signature version, the recovered sender is the signing key's address, and it survives encoding. After any change to a signed field, including network, shard keys, tokens and version, the signer's address is no longer recovered. Signatures with malleable or out-of-range values are rejected.",
 over=["inputs"], q="all keys, contents, versions 0-2, and single-field tamperings and signature manipulations",
 why="Tests sign a few fixed transactions with fixed keys.",
 files=["core/types/transaction_signing.go","core/types/transaction.go","core/types/solidity_abi_utils.go"],
 mech=[("per-version signing hash","core/types/transaction_signing.go, core/types/solidity_abi_utils.go"),("signature value validation and sender cache","core/types/transaction_signing.go")],
 tech=RAPID+"sign/recover round trip, tampering as metamorphic relation, own typed-data hash as reference", note="Random keys and contents for the three versions; every field tampered; typed-data hash recomputed independently."),

dict(id="C04", title="Every account key belongs to exactly one shard, everywhere the same",
 statement="For every cluster shape, each full shard key is served by exactly one shard, and address, branch and configuration agree on which; keys of unknown chains are refused. Addresses survive their text and byte encodings, malformed ones are refused, and the neighbour relation between shards is symmetric.",
 over=["inputs","configurations"], q="all chain/shard-size configurations, full shard keys, addresses and byte strings",
 why="Tests check a few constants in one configuration.",
 files=["account/address.go","account/branch.go","account/neighbor.go","account/identity.go","cluster/config/cluster_config.go","core/types/transaction.go"],
 mech=[("full shard id arithmetic","account/address.go, account/branch.go, cluster/config/cluster_config.go"),("neighbour rule","account/neighbor.go")],
 tech=RAPID+"partition invariant over generated configurations and keys", note="Partition property checked for generated configurations with mixed shard sizes and full-range keys."),

dict(id="C05", title="Token names and token ids are in exact one-to-one correspondence",
 statement="Every valid token name encodes to one id and that id decodes to the same name, and every id up to the maximum decodes to a valid name that encodes to the same id; the order of ids follows length, then alphabet. Invalid names and ids above the maximum are refused.",
 over=["inputs"], q="all names of valid and invalid characters and lengths; all 64-bit ids",
 why="Tests cover a dozen names.",
 files=["common/token_codec.go"],
 mech=[("base-36 bijective numeration","common/token_codec.go")],
 tech=RAPID+"bijection against an independent base-36 reference", note="Random and boundary names and ids, compared with an independent big-integer reference.", procs=4),

dict(id="C06", title="Token balances of an account are exactly what was credited and debited",
 statement="For any history of credits, debits, snapshots, reverts, copies, commits and reloads on accounts holding any number of different tokens, each account's balance of each token equals the sum of the surviving changes, whether balances are read one by one or as a set, before and after a restart. Equal sets of non-zero balances have equal encodings.",
 over=["histories","inputs"], q="all sequences of operations over many accounts and tokens, with commits and reloads from disk anywhere, and token counts on both sides of the storage threshold",
 why="Tests use accounts with a few tokens and short scripts; the switch to trie storage combined with revert, copy and reload is never exercised.",
 files=["core/types/token.go","core/state/state_object.go","core/state/statedb.go","core/state/journal.go"],
 mech=[("token list or token trie encoding by threshold","core/types/token.go"),("journalled balance changes","core/state/state_object.go, core/state/journal.go")],
 tech=RAPID+"stateful model-based testing against a map model", note="Histories over accounts with up to 40 tokens with commit, reload, revert and copy; model is a map per snapshot."),

dict(id="C07", title="State snapshots, reverts and commits never lose or leak a change",
 statement="Reverting to a snapshot restores exactly the account contents, code, storage, nonces, logs and refunds of that moment; a committed state reloaded from its root shows exactly what was committed. The state root depends only on the contents, not on the order or grouping of the operations that produced them, and a copy of a state is independent of the original.",
 over=["histories"], q="all sequences of state operations including create, suicide, nested snapshots, reverts, copies, intermediate roots and commits",
 why="The existing randomized snapshot test covers reverts of one shape, not commit/reload/copy/root determinism with the multi-token and shard-key fields.",
 files=["core/state/statedb.go","core/state/state_object.go","core/state/journal.go","core/state/database.go"],
 mech=[("journal and revisions","core/state/journal.go, core/state/statedb.go"),("commit to trie and database","core/state/statedb.go")],
 tech=RAPID+"stateful model-based testing against a reference state and root recomputation", note="Random operation histories against a value-level model; root recomputed from the model in a fresh state."),

dict(id="C08", title="Executing a transaction conserves every token and charges exactly its gas",
 statement="Applying a transaction changes the total supply of each token in the shard by nothing except what leaves in cross-shard deposits, the burned tax on fees, and other tokens of a contract that destroys itself; the fee is gas used times gas price, split between the miner and the burned tax. A rejected transaction changes nothing; an accepted one raises the sender's nonce by one, uses between its intrinsic gas (less refunds) and its gas limit, whether or not its execution fails, and its receipt reports exactly the gas it used.",
 over=["inputs","histories"], q="all transactions (transfers, contract calls and creations, cross-shard, failing ones, any tokens) on generated states",
 why="Tests check balances of single scripted transfers.",
 files=["core/state_transition.go","core/state_processor.go","core/vm/evm.go","core/gaspool.go"],
 mech=[("buy gas, execute, refund, pay fee","core/state_transition.go"),("value transfer and reverts","core/vm/evm.go")],
 tech=RAPID+"invariant over generated transactions with full-state accounting", note="Generated transactions of all kinds executed on generated states; sums of every token over all accounts compared before and after."),

dict(id="C09", title="Cross-shard value arrives exactly once, complete and in order",
 statement="Every cross-shard transaction confirmed by the root chain credits its recipient in the destination shard exactly once with exactly the amount that left the source shard, in the order fixed by the root blocks, no matter how destination blocks are cut by gas limits. The sum of each token over all shards plus deposits in flight plus burned fees is constant apart from mining rewards.",
 over=["histories","schedules"], q="all interleavings of source blocks, root blocks and destination blocks over several shards, all destination gas limits",
 why="Tests deliver one to three deposits in one scripted order.",
 files=["core/xshard_tx_cursor.go","core/minorblockchain_addon.go","core/state_processor.go","core/types/cross_shard_transaction.go","core/state_transition.go"],
 mech=[("deposit cursor over root blocks","core/xshard_tx_cursor.go"),("deposit list per minor block","core/minorblockchain_addon.go"),("receiver execution","core/state_processor.go")],
 tech=RAPID+"stateful simulation of a multi-shard network against a deposit ledger", note="Two-chain, multi-shard networks with root chain simulated in process; every deposit tracked in a ledger."),

dict(id="C10", title="A shard accepts exactly the blocks that follow the rules",
 statement="A block assembled by a node for mining is accepted by every other node with the same history and produces the same state, receipts and head there. A block that deviates in any header, metadata or body field - branch, height, parent, time, gas, coinbase amount, roots, bloom, difficulty, transaction list, root reference - is rejected and leaves chain and state unchanged.",
 over=["inputs","histories"], q="all mined blocks of generated histories and all single-field deviations, with dependent commitments recomputed",
 why="Tests check one block per rule with most other rules switched off.",
 files=["core/minorblock_validator.go","core/minorblockchain.go","core/minorblockchain_addon.go","core/state_processor.go"],
 mech=[("header and body validation","core/minorblock_validator.go"),("block assembly","core/minorblockchain_addon.go"),("state comparison after execution","core/minorblock_validator.go")],
 tech=RAPID+"differential: independent second node as oracle, metamorphic block tampering", note="Histories replayed on a second node; every field of every accepted block tampered, including re-sealed variants with commitments recomputed."),

dict(id="C11", title="A shard always follows the longest chain on the heaviest root chain",
 statement="After any sequence of minor and root blocks, in any order of arrival including forks, repetitions and blocks with unknown ancestors, the shard's head is the one the fork-choice rule gives: a block becomes head exactly when its root reference is on the current root chain and it extends the head, or descends from the last confirmed block and is higher than the head, or equally high with a later root reference; a root block of greater total difficulty becomes the root tip and moves the head to the last block it confirms if that is not already on the head's chain, then back until the head's root reference is on the new root chain. Every index - block and header by height, transaction and receipt by hash, state of the head, statistics, unconfirmed headers - describes exactly the chain that ends in that head and nothing else.",
 over=["histories","schedules"], q="all block trees over shard and root chain and all arrival orders",
 why="Tests script single reorganisations.",
 files=["core/minorblockchain.go","core/minorblockchain_addon.go","core/minorheaderchain.go","core/rawdb/accessors_chain.go","core/rawdb/accessors_indexes.go"],
 mech=[("fork choice on insert","core/minorblockchain.go, core/minorblockchain_addon.go"),("reorganisation and index rewriting","core/minorblockchain.go")],
 tech=RAPID+"stateful model-based testing of block trees against a reference fork choice", note="Random block trees inserted in random parent-first orders; reference fork choice and full index scan after every step."),

dict(id="C12", title="A restarted node continues from a consistent chain",
 statement="A node (a master with its shards) that starts again after a stop, or after a crash that lost any suffix of the writes to its databases, never fails to start and continues on a consistent chain: the root head is a block that had been accepted and after a clean stop the same one as before, every shard continues from the minor block last confirmed at that root head with its state, and block numbers, transactions, receipts and confirmations are found exactly for the blocks of that chain. Blocks lost or dropped can be added again, become known to neighbours and master, and the node then follows the chain as one that never stopped.",
 over=["crash_points","histories"], q="all histories of shards and root chain and all points at which writes stop, also during a restart",
 why="Tests restart cleanly after one scripted history.",
 files=["core/minorblockchain.go","core/minorblockchain_addon.go","core/rootblockchain.go","core/genesis.go","core/rawdb/accessors_chain.go","core/rawdb/accessors_indexes.go","cluster/shard/api_backend.go","cluster/shard/shard.go","cluster/master/backend.go"],
 mech=[("load last state and repair","core/minorblockchain.go, core/rootblockchain.go"),("commit markers","core/rawdb/accessors_chain.go, cluster/shard/api_backend.go"),("write-ahead mark of a root block","cluster/master/backend.go")],
 tech=RAPID+"fault injection: write log truncated at generated points, reopened and compared", note="A real master and real shards over journaling databases get a generated history with forks; the node is stopped or loses the writes after a generated point (batches atomic, one order for the whole cluster, also in the middle of a restart), starts, is examined, gets all blocks again and is compared with a cluster that never stopped.",
 run={"overlay": {"/repo/cluster/shard/zz_verif.go": "harness/c12/overlay/shard.go.txt", "/repo/cluster/master/zz_verif.go": "harness/c12/overlay/master.go.txt"}}),

dict(id="C13", title="The root chain follows the greatest work and admits only valid root blocks",
 statement="After any sequence of root blocks in any arrival order the root head is a chain of greatest total difficulty (at equal difficulty the lower one, else the one seen first), and number, lookup, miner-count, hash and minor-header indexes describe exactly that chain. A root block is accepted only if its minor headers are known, ordered, linked without gap to those confirmed before, refer to root blocks of the same chain, and its height, time, difficulty, total difficulty and reward follow the rules; others are rejected without effect.",
 over=["histories","inputs"], q="all root block trees and arrival orders, and all deviations of a valid root block",
 why="Tests script individual forks and individual rule violations.",
 files=["core/rootblockchain.go","core/rootblock_validator.go","core/rootheaderchain.go"],
 mech=[("total difficulty fork choice","core/rootblockchain.go"),("root block validation","core/rootblock_validator.go")],
 tech=RAPID+"stateful model-based testing of block trees, metamorphic tampering", note="Random trees with generated difficulties; reference fork choice and full index scan; every rule broken in generated valid blocks."),

dict(id="C14", title="Difficulty and stake discounts follow the published formulas",
 statement="The difficulty required of a block is exactly the documented function of its parent's difficulty and the time between them and never falls below the minimum. With proof of staked work a miner gets the reduced difficulty exactly when its stake covers the blocks it mined within the window, and stake locked by recent blocks cannot be spent.",
 over=["inputs","histories"], q="all parents, times and parameters; all sequences of coinbases, stakes and window sizes, including forks",
 why="Tests check a few points and one window.",
 files=["consensus/difficulty.go","consensus/posw/posw.go","cluster/config/config.go","core/minorblockchain_addon.go","core/rootblockchain.go","core/vm/evm.go"],
 mech=[("difficulty calculator","consensus/difficulty.go"),("sliding window count and disallow map","consensus/posw/posw.go"),("boost schedule","cluster/config/config.go")],
 tech=RAPID+"reference formula and naive window model", note="Formula recomputed with big integers; window counted by a naive walk on generated chains with forks."),

dict(id="C15", title="A seal is accepted exactly when its proof of work meets the difficulty",
 statement="For each proof-of-work algorithm a header's seal verifies exactly when the algorithm's hash of the sealing hash and nonce is at most the target of the difficulty and the mix digest matches; miners only return seals that verify. Hash results do not depend on cache state, on concurrency or on which implementation computed them.",
 over=["inputs","schedules"], q="all headers, nonces, mix digests, difficulties and heights, in all algorithms",
 why="Tests have a few golden values and one mined block per engine.",
 files=["consensus/consensus.go","consensus/doublesha256/double256.go","consensus/qkchash/algorithm.go","consensus/qkchash/llrb.go","consensus/qkchash/qkchash.go","consensus/qkchash/native/qkchash.cpp","consensus/ethash/algorithm.go","consensus/ethash/qethash.go"],
 mech=[("target comparison and seal verification","consensus/consensus.go and engines"),("ordered-set hash","consensus/qkchash/algorithm.go, consensus/qkchash/llrb.go, consensus/qkchash/native")],
 tech=RAPID+"independent reference algorithms and differential Go vs C++", note="Double-SHA256 recomputed; qkchash compared with an independent reference and the C++ version; verification checked around the exact target; run with the Go and with the C++ build, caches also under the race detector.", run={"native": True, "variants": [{"procs": 4}, {"procs": 3, "tags": "nt"}, {"procs": 1, "race": True, "run": "^Test(EthCaches|Miner|Caches)$"}]}),

dict(id="C16", title="The transaction pool offers only executable transactions and loses none",
 statement="After any sequence of submissions, replacements, new blocks and reorganisations, the executable transactions of an account are consecutive from its current nonce, affordable and correctly signed for this shard, and no transaction is in the pool twice. A transaction is reported accepted exactly when it is in the pool afterwards, replacement needs the required price increase, the limits on transactions of strangers are respected, and transactions of abandoned blocks return.",
 over=["histories"], q="all sequences of submissions by many accounts, prices, nonces, gaps, balances, limits and head changes",
 why="Tests are scripted; results of batches mixing known, invalid and new transactions and multi-token balances are not covered.",
 files=["core/tx_pool.go","core/tx_list.go","core/tx_noncer.go","core/minorblockchain_addon.go"],
 mech=[("pending/queue lists and promotion","core/tx_pool.go, core/tx_list.go"),("reset on new head","core/tx_pool.go")],
 tech=RAPID+"stateful testing with pool invariants and a reference admission model", note="Three machines: batches on one head against an exact model of what is held and of every answer; a small pool of strangers against its limits; blocks, reorganisations and root blocks with conflicting and expensive transactions against an exact model of what stays and what returns."),

dict(id="C17", title="Block building takes the best-paying transactions in nonce order",
 statement="The order in which a block builder takes pending transactions yields, at each step, a transaction whose price is highest among the next ones of all accounts, never takes an account's transactions out of nonce order, and delivers each exactly once; dropping an account removes exactly its remaining transactions. A block built from it never exceeds its gas limit nor includes a transaction that could not be executed.",
 over=["inputs","histories"], q="all sets of accounts, nonces, prices and sequences of take and drop decisions, and all pool contents at block building",
 why="Tests check sorted output for one random set.",
 files=["core/types/transaction.go","core/minorblockchain_addon.go"],
 mech=[("heap of account heads","core/types/transaction.go"),("block assembly loop","core/minorblockchain_addon.go")],
 tech=RAPID+"reference model of the merge", note="Model keeps the sorted lists and predicts the set of allowed next items at each step."),

dict(id="C18", title="What is written to the store is read back, and nothing else is",
 statement="The key-value store behaves as a map under any sequence of puts, deletes, batches, iterations and reopenings. Every chain record - headers, blocks, receipts, canonical hashes, lookups, deposit lists, confirmations, counters - is read back equal to what was written for its key, deletions remove exactly that record, and different kinds of record never collide.",
 over=["histories","inputs"], q="all sequences of record writes, overwrites, deletes and reads over generated keys and values",
 why="Tests write and read one record per kind.",
 files=["core/rawdb/accessors_chain.go","core/rawdb/accessors_indexes.go","core/rawdb/accessors_metadata.go","core/rawdb/schema.go","qkcdb/leveldb.go","qkcdb/rocksdb.go","cluster/service/memorydatabase.go"],
 mech=[("key schema","core/rawdb/schema.go"),("accessors","core/rawdb/accessors_chain.go, core/rawdb/accessors_indexes.go")],
 tech=RAPID+"stateful model-based testing against maps", note="All record kinds interleaved in one database against a model map; the on-disk store against a sorted map with reopen."),

dict(id="C19", title="Log queries return exactly the matching logs of the canonical chain",
 statement="A log query over any block range, address set and topic pattern returns exactly the logs that a full scan of the canonical blocks' receipts would, in chain order and with correct block, transaction and log positions. A query that names a block outside the canonical chain or heights beyond the head either gets exactly the canonical logs in its reach or an error, never a silently wrong list. A block's bloom filter contains the address and every topic of every one of its logs.",
 over=["inputs","histories"], q="all chains of blocks with logs, ranges, address sets and topic patterns with wildcards",
 why="Tests query a fixed chain with a few patterns.",
 files=["core/filter.go","core/types/bloom9.go","core/types/log.go","core/types/receipt.go","core/minorblockchain_addon.go"],
 mech=[("bloom pre-check and exact match","core/filter.go"),("bloom construction","core/types/bloom9.go")],
 tech=RAPID+"naive full scan as reference", note="Histories with forks and cross-shard calls; chain-level queries and JSON-RPC queries (block hash, tags, addresses, wildcard and alternative topics) compared with a scan of recorded receipts; bloom construction checked apart."),

dict(id="C20", title="Paging through history shows every transaction exactly once",
 statement="Following the page cursor of an address's (or the whole shard's) transaction history from the start visits exactly the canonical transactions and incoming cross-shard transfers that concern it, each once, newest first, with correct amounts, tokens, status and height, for every page size of at least one. Zero-value root-chain rewards are not entries; root-chain rewards are shown whatever the token filter. The pending transactions of an address are listed on request. After a reorganisation the history describes the new canonical chain only.",
 over=["inputs","histories"], q="all chains, addresses, token filters, page sizes and reorganisations",
 why="Tests read a history of a few entries with one page size.",
 files=["core/minorblockchain_addon.go"],
 mech=[("history index keys ordered by height and index","core/minorblockchain_addon.go")],
 tech=RAPID+"paging compared with a naive scan of the canonical chain", note="Generated chains incl. cross-shard deposits and forks; all page sizes compared with a naive list."),

dict(id="C21", title="Contract code executes exactly as the Ethereum rules of its fork say",
 statement="For any contract code, input, gas, value and state that use no native-token extension, execution yields the same return data, gas left, error, storage, logs, balances and refunds as Ethereum of the same rules. Execution never panics, never exceeds its gas, and is deterministic.",
 over=["programs","inputs"], q="all byte codes (random and structured), call data, gas amounts, nested calls and creations",
 why="The bundled state tests are a fixed set of programs.",
 files=["core/vm/instructions.go","core/vm/gas_table.go","core/vm/jump_table.go","core/vm/interpreter.go","core/vm/evm.go","core/vm/memory.go","core/vm/stack.go","core/vm/contracts.go","core/vm/analysis.go"],
 mech=[("instruction set and gas tables","core/vm"),("call frames and reverts","core/vm/evm.go")],
 tech=RAPID+"differential fuzzing against go-ethereum 1.8.20's EVM", note="Structured random programs run on both machines with equal pre-state; all observable effects compared."),

dict(id="C22", title="Native tokens move in contracts only by their owner and only when understood",
 statement="A contract receiving a non-default token keeps it only if it asked which token it received; otherwise the transfer is undone. The native-token precompiles move exactly the requested amount of the requested token from the caller, mint only for the authorised system contract, refuse static calls and bad token ids, report true balances, and no input to them can crash the node or create or destroy value.",
 over=["programs","inputs"], q="all inputs to the native-token precompiles, calling contexts, tokens, balances, gas and nesting",
 why="Tests call each precompile with one well-formed input.",
 files=["core/vm/contracts.go","core/vm/evm.go","core/state_transition.go"],
 mech=[("token-query rule","core/vm/evm.go"),("transfer, mint, balance, current-token and deploy precompiles","core/vm/contracts.go")],
 tech=RAPID+"reference model of each precompile, conservation invariant", note="Precompiles driven directly and through generated contracts with valid, boundary and hostile inputs; effects compared with a model."),

dict(id="C23", title="Calls and gas estimates do not change the chain and tell the truth",
 statement="Simulating a call or estimating gas leaves chain, state, pool and database exactly as they were, and a call returns what the transaction computes when included next; a call at a past height sees that height's state and block. The gas estimate, including that of a transaction to another shard, is enough for the transaction to succeed there and one unit less is not; a transaction that cannot succeed, or any extreme argument, gets an error and never a crash or an endless search.",
 over=["inputs","histories"], q="all transactions and all chain states",
 why="Tests estimate two or three fixed transactions.",
 files=["core/minorblockchain_addon.go","core/state_processor.go","core/state_transition.go","core/evm.go","cluster/master/api_backend.go"],
 mech=[("simulation on a state copy","core/minorblockchain_addon.go"),("binary search of gas","core/minorblockchain_addon.go")],
 tech=RAPID+"metamorphic: simulate, compare fingerprints, then execute for real", note="Generated transactions (contracts that digest what they see, need or dislike gas, create, refund; generated programs) on generated histories, simulated, estimated, then mined with the estimate or one less and results compared; transactions to another shard are mined at both ends. Estimates above the half of a block kept for deposits, or asked with more than the block limit, are checked against calls only. Gas paid in other tokens is not generated."),

dict(id="C24", title="Peers exchange messages intact over the encrypted link or not at all",
 statement="Any sequence of messages sent over an established link arrives complete, unchanged, in order, with the right operation, routing and request id, whatever their sizes up to the limit. Any corruption, truncation or oversized frame is detected and ends the link with an error; no bytes from a peer cause a panic or stop the server for others. Requests of peers for headers, blocks and lists are answered exactly as the chain says; wrong, unordered or hostile messages end at most their own connection.",
 over=["inputs","fault_sequences"], q="all message sequences, sizes and byte corruptions of the stream and of the handshake; all commands, arguments and payloads a peer can send",
 why="Tests exchange a few fixed messages and check fixed vectors.",
 files=["p2p/rlpx.go","p2p/message.go","p2p/decode.go","p2p/qkchandle.go","p2p/p2p_commands.go","p2p/peer.go","p2p/server.go","cluster/master/handle.go","cluster/slave/slave_grpc.go","cluster/slave/api_backend.go"],
 mech=[("frame MAC and encryption","p2p/rlpx.go"),("message envelope","p2p/decode.go, p2p/p2p_commands.go"),("handlers of a peer's commands","cluster/master/handle.go, cluster/slave/slave_grpc.go")],
 tech=RAPID+"round trip over an in-memory link with injected corruption; wire-level peer model against recorded history", note="Two endpoints over a pipe with generated message sequences and generated byte flips, truncations, reorderings and handshakes; a p2p server under hostile connections; a whole node asked by wire-level peers, its answers compared with the generated history.",
 run={"overlay": {"/repo/p2p/zz_verif.go": "harness/c24/p2p_verif.go.txt"}}),

dict(id="C25", title="Synchronising adopts only verified chains and survives any peer",
 statement="Synchronising with an honest peer that has a better chain ends with exactly that peer's chain, whatever the common history and batch and block sizes, unless the fork is older than the configured staleness limit. Whatever a dishonest peer answers - wrong, missing, unordered, unlinked, empty or unrequested headers and blocks - the task ends without a panic or endless loop, and only blocks that extend known blocks and pass validation are added.",
 over=["inputs","fault_sequences","histories"], q="all pairs of local and peer chains and all deviations of the peer's answers",
 why="Tests use one mock peer with a few fixed misbehaviours.",
 files=["cluster/sync/task.go","cluster/sync/root_task.go","cluster/sync/minor_task.go","cluster/sync/sync.go","cluster/slave/api_backend.go","cluster/shard/api_backend.go","cluster/master/handle.go","cluster/slave/conn_manager.go"],
 mech=[("ancestor search, header validation, block download","cluster/sync/task.go, cluster/sync/root_task.go, cluster/sync/minor_task.go")],
 tech=RAPID+"generated chains and adversarial peer model", note="A whole node (master and slaves over real connections) fed by wire-level peers that serve a generated chain honestly or with generated faults; the bare tasks over mock chains up to 135000 blocks deep; blocks above 4 MB. A minor tip that is already stored is not adopted again when announced (as in the reference implementation), so only unknown tips are announced."),

dict(id="C26", title="The public JSON interface parses strictly and answers every request",
 statement="Numbers, byte strings, hashes, addresses and block numbers survive the JSON encoding, and every malformed spelling is refused. Every request, batch or garbage sent to the server gets exactly one well-formed answer per call with the matching id, carries the true result or an error, and never stops the server. A subscription's notifications carry its id, come after the answer that gives it, in the order they were made and until it is cancelled.",
 over=["inputs","schedules"], q="all JSON documents and byte strings sent to the server over a stream or HTTP, all argument values, all subscription histories",
 why="Tests send a few fixed requests.",
 files=["rpc/json.go","rpc/server.go","rpc/types.go","rpc/utils.go","rpc/http.go","rpc/subscription.go","common/hexutil/hexutil.go","common/hexutil/json.go","account/address.go","internal/qkcapi/input_args.go","internal/encoder/encoder.go","internal/qkcapi/api.go","cluster/master/api_backend.go","cluster/master/backend.go"],
 mech=[("request parsing and dispatch","rpc/json.go, rpc/server.go"),("hex encodings","common/hexutil"),("subscriptions","rpc/subscription.go")],
 tech=RAPID+"grammar-based request fuzzing with an expected-answer model", note="Generated and mutated spellings of every argument type against independent parsers; generated valid, invalid, garbage and batch requests over a stream and HTTP to a server with a known service, answers compared with the model; the chain interface of a whole node on generated histories, its answers compared with a record of the history, with hostile arguments; subscription histories with several subscribers. Leading zeros, 0X and the empty string are accepted by design and are not part of the claim."),

dict(id="C27", title="A key file gives back the key to the right password only",
 statement="A stored key file opened with its password yields the same key and address; with any other password it yields an error. After damage to its contents it yields the same key or an error, never a different key and never a crash.",
 over=["inputs"], q="all keys, passwords and corruptions of the file",
 why="Tests store and load one key.",
 files=["account/account.go","account/identity.go"],
 mech=[("PBKDF2/AES key file with MAC","account/account.go")],
 tech=RAPID+"round trip and corruption fuzzing", note="Files written by an independent implementation with cheap key derivation, and by the code itself; wrong and near-miss passwords, damage of every field and of single bytes."),

dict(id="C28", title="Mining rewards and fees are issued exactly by schedule",
 statement="The coinbase of every minor block is the scheduled, decayed reward plus the fees of its transactions and deposits after tax, per token; a root block's coinbase is its own decayed reward plus the tax share of the minor blocks it confirms. No other value is created, for any height, epoch length, tax rate, decay factor or fee mix.",
 over=["inputs","configurations"], q="all heights, epoch intervals, rates and block contents",
 why="Tests check one or two blocks with default rates.",
 files=["core/minorblockchain_addon.go","core/rootblockchain.go","core/state_processor.go","core/state_transition.go","common/utils.go"],
 mech=[("reward decay and fee split","core/minorblockchain_addon.go, core/rootblockchain.go"),("rational arithmetic","common/utils.go")],
 tech=RAPID+"reference formula in exact rational arithmetic", note="Generated configurations and blocks; amounts recomputed independently."),

dict(id="C29", title="A cluster configuration means the same after saving and loading",
 statement="Any valid cluster configuration written as JSON and read back gives the same chains, shards, genesis, rates, keys and slave assignment, and hence the same genesis blocks. Legacy and modern shard assignments describe the same shards, and inconsistent configurations are refused.",
 over=["configurations"], q="all valid and inconsistent configurations",
 why="Tests load one file.",
 files=["cluster/config/cluster_config.go","cluster/config/config.go","cluster/config/chain_config.go","cluster/config/shard_config.go","cluster/config/slave_config.go","core/genesis.go"],
 mech=[("JSON marshalling and validation","cluster/config"),("genesis construction","core/genesis.go")],
 tech=RAPID+"round trip and equality of derived genesis blocks", note="Generated configurations; JSON round trip, genesis hash equality, legacy mask coverage."),

dict(id="C30", title="Remote miners' work is accepted exactly when valid and not stale",
 statement="Work handed to a remote miner describes the block offered last for its address; a submitted solution is accepted exactly when it solves outstanding, non-stale work at its difficulty, and then yields that very block with the solution filled in. Unknown, stale or wrong solutions are refused without effect. Whatever the order of new tips, mining switches, synchronisation and failed block creations, the miner never gets stuck: it goes on to offer work for the current tip, and stopping it neither hangs nor leaves callers hanging.",
 over=["histories","inputs","schedules"], q="all sequences of new work, work requests, (in)valid submissions, new tips, mining switches and failures",
 why="Tests submit one valid and one invalid solution; the miner in front of the engine has no test of its own.",
 files=["consensus/remote.go","consensus/consensus.go","cluster/miner/miner.go"],
 mech=[("outstanding work table","consensus/remote.go"),("sealing and work requests","consensus/consensus.go"),("mining loops, work on demand","cluster/miner/miner.go")],
 tech=RAPID+"stateful model-based testing of the remote sealer, generated histories of the miner with injected failures and a deadline for progress", note="Random sequences of seal, get-work and submit (solutions chosen around each difficulty bound, with and without signatures) against a model of outstanding work; miners with generated disturbances must end up offering the current tip and accepting its solution."),
]
