#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing the table below)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "No coin is created beyond block rewards",
  "On every chain a node accepts, the unspent outputs sum to at most (number of blocks) x (block reward), and each block's new outputs are worth exactly the inputs it spends plus one block reward, in true (non-wrapping) arithmetic. A transaction whose outputs exceed its inputs in true arithmetic, or whose totals do not fit in 64 bits, is never admitted.",
  ["inputs", "histories"], "every 64-bit output value, every transaction shape up to the bound, every sequence of accepted blocks",
  "No existing test submits a transaction or a block to verification at all; wrap-around needs particular 64-bit values.",
  ["pkg/core/verify.go", "pkg/core/transaction.go", "internal/inv/inv.go", "internal/chain/state.go"],
  [("value checks on admission", "pkg/core/verify.go VerifyTx/VerifyTxIsolated/VerifyBlock"), ("sums", "pkg/core/transaction.go InputsValue/OutputsValue"), ("utxo bookkeeping", "internal/chain/state.go Advance")],
  [("utxos", "unspent outputs at the head", "internal/chain/state.go State.utxos")],
  ["inventory store results", "balance and utxo queries"])
p("C02", "An output is spent at most once and only if it exists",
  "On the accepted chain no transaction output is consumed twice, not even within one transaction or one block, and nothing is consumed that is not an unspent output of that same chain with the stated owner and value. A block that does so is rejected and the ledger stays as it was.",
  ["inputs", "histories"], "every choice of which known output (spent, unspent, of another branch, duplicated) each input names, every block up to the bound",
  "No existing test builds a chain; the bad cases are particular combinations of transactions across blocks and branches.",
  ["internal/chain/state.go", "pkg/core/verify.go", "internal/inv/inv.go"],
  [("availability check and consumption", "internal/chain/state.go VerifyTxIncludable/Advance"), ("merkle overlap check", "pkg/core/verify.go VerifyMerkle")],
  [("utxos", "unspent outputs at the head", "internal/chain/state.go State.utxos"), ("includedTxBlocks", "which block included each tx", "internal/chain/state.go")],
  ["candidate head outcome", "utxo queries"])
p("C03", "Only the holder of the key can spend an output",
  "A transaction is admitted only if, for every input, the given public key hashes to the owner of the named output, the given value is that output's value, and the signature verifies under that key over the signed content. The signed content commits to the transaction: altering its inputs, outputs or minimum block after signing invalidates it.",
  ["inputs"], "every transaction up to 2 inputs x 2 outputs, arbitrary keys, values, indices, every verdict of the signature primitive",
  "Tests sign and verify one message; nothing checks which content a signature covers or that every input is checked.",
  ["pkg/core/verify.go", "pkg/core/transaction.go", "pkg/core/crypto.go"],
  [("owner, value and signature checks", "pkg/core/verify.go VerifyTx, VerifyTxIsolated"), ("signed content", "pkg/core/transaction.go TxHashPreSig")],
  (), ["inventory StoreTx result"])
p("C04", "The node follows the heaviest valid chain, and failed switches change nothing",
  "A candidate head becomes the node's head exactly when it is known, every block back to the common ancestor can be applied, and its total work is strictly greater than the current head's. When a candidate is refused for any reason the head, unspent outputs, balances, confirmations and previously pending transactions are unchanged.",
  ["inputs", "histories"], "every pair of branches up to the bound with any targets, any one invalid block in any position",
  "No test drives the chain component; needs forks with different work and late failures.",
  ["internal/chain/chain.go", "internal/chain/state.go", "internal/inv/inv.go"],
  [("work comparison, copy, rewind, advance, swap", "internal/chain/chain.go handleCandidateHead"), ("deep copy", "internal/chain/state.go Copy")],
  [("state", "the ledger at the head", "internal/chain/chain.go Chain.state")],
  ["ValidatedHead event", "ledger queries", "saved head file"])
p("C05", "A reorganisation leaves exactly the ledger of the new branch",
  "After switching branches, unspent outputs, balances and inclusion records are exactly what applying the new branch from the start would give, and every transaction displaced from the old branch is pending again with its spends reserved. Switching never aborts the node.",
  ["inputs", "histories"], "every old and new branch up to the bound, including transactions that spend outputs created in the same block",
  "No test performs a reorganisation.",
  ["internal/chain/state.go", "internal/chain/chain.go"],
  [("Rewind / RewindUntil / Advance", "internal/chain/state.go")],
  [("mempool, mempoolUtxoSpends, pkhUtxos, includedTxBlocks", "ledger indexes", "internal/chain/state.go State")],
  ["ledger queries"])
p("C06", "A block is accepted exactly when it meets the consensus rules",
  "A block is stored only if its id is below its target, its parent and transaction tree are known, its first and only its first transaction is a coinbase whose minimum block is the block's height, values balance, size and count limits hold, its time is above the median of the previous (up to) five and at most an hour ahead, the last block of a period is later than the first, and at a period boundary its target is within a factor of four of its parent's (elsewhere equal to it) and at most the network's maximum; and any block meeting all of these is stored.",
  ["inputs", "configurations"], "all times, targets, heights and values over chains up to the bound; clock arbitrary",
  "No test verifies a block; the rules are predicates over 64/256-bit values and chain positions.",
  ["pkg/core/verify.go", "internal/inv/inv.go", "pkg/core/block.go"],
  [("VerifyBlock, VerifyBlockIsolated", "pkg/core/verify.go"), ("StoreBlock", "internal/inv/inv.go")],
  (), ["inventory StoreBlock result"])
p("C07", "A transaction is admitted exactly when it is well formed",
  "A transaction is stored only if it is within the size limit, every input names an existing output of a known transaction, no output is named twice, and it is either a coinbase (no inputs, one output of at least the reward) or pays a positive fee; and any transaction meeting these with valid signatures is stored, under its own id, unchanged. A refused transaction leaves no trace.",
  ["inputs"], "every transaction up to 2 inputs x 3 outputs with arbitrary field values and key/signature lengths",
  "No test calls transaction verification.",
  ["pkg/core/verify.go", "internal/inv/inv.go", "pkg/core/transaction.go"],
  [("VerifyTx, VerifyTxIsolated", "pkg/core/verify.go"), ("StoreTx", "internal/inv/inv.go")],
  (), ["inventory StoreTx / HasTx / GetTx"])
p("C08", "Difficulty follows elapsed time within 4x and is always accepted",
  "The target computed for the next block equals the parent's target except at a period boundary, where it is parent target x actual time / desired time limited to between a quarter and four times the parent's and to the network maximum. It is always acceptable to verification, and computing it never aborts on a chain whose blocks were accepted.",
  ["inputs", "histories", "configurations"], "all targets up to the maximum, all block times the verifier accepts, all chain positions up to the bound",
  "No test calls the retarget code; failures need particular times at particular heights.",
  ["pkg/core/difficulty.go", "pkg/core/hasht.go", "pkg/core/verify.go"],
  [("NextTarget, ExpectedTargetAdjustment", "pkg/core/difficulty.go"), ("MaxNextTarget/MinNextTarget", "pkg/core/hasht.go"), ("period-end time check", "pkg/core/verify.go VerifyBlock")],
  (), ["NextTarget", "MinerTarget event"])
p("C09", "Work is counted exactly and hashes order as big-endian integers",
  "A block's recorded total work is its parent's plus floor((2^256-1)/target) and its height is its parent's plus one, so work strictly increases along a chain. Comparing two hashes is a strict total order equal to comparing their 256-bit big-endian values.",
  ["inputs"], "all pairs of 256-bit values; all nonzero targets; all totals that fit in 256 bits",
  "Tests compare 100 random hashes and 16 random targets out of 2^256.",
  ["pkg/core/hasht.go", "internal/inv/inv.go"],
  [("Lt, Eq, TargetToWork, WorkAppendTarget", "pkg/core/hasht.go"), ("StoreBlock", "internal/inv/inv.go")],
  (), ["GetBlockTotalWork, GetBlockHeight"])
p("C10", "An id commits to every field of the object it names",
  "Two transactions, merkle nodes or blocks with the same id are identical in every field, including list lengths and order; equal objects have equal ids. The content a signature covers likewise determines the minimum block and every output.",
  ["inputs"], "all field values; transactions up to 2 inputs x 2 outputs, keys and signatures of differing lengths; collision-free hash primitive",
  "Tests only log a hash; injectivity is a statement about all pairs of objects.",
  ["pkg/core/hasht.go", "pkg/core/transaction.go", "pkg/core/block.go"],
  [("DHashVarious/DHashAny/DHashList", "pkg/core/hasht.go"), ("Hash methods", "pkg/core/transaction.go, pkg/core/block.go")],
  (), ["Hash() of every object kind"])
p("C11", "A block's transaction tree gives back exactly its transactions, in order",
  "Building the tree for a list of distinct transactions and storing its nodes in the given order succeeds, and reading the tree gives the same transactions in the same order with their summed size. A node whose children are unknown, whose different children share a transaction, or whose content exceeds the block size limit is refused.",
  ["inputs"], "all lists of distinct transactions up to the bound, all trees over known nodes up to the bound, all sizes",
  "One test builds one 5-leaf tree and never stores or reads it.",
  ["pkg/core/block.go", "internal/inv/inv.go", "pkg/core/verify.go"],
  [("MerkleFromTxIds", "pkg/core/block.go"), ("GetMerkleTxIds, StoreMerkle", "internal/inv/inv.go"), ("VerifyMerkle", "pkg/core/verify.go")],
  (), ["StoreMerkle, GetMerkleTxIds, GetMerkleVSize"])
p("C12", "What one peer writes the other reads back, exactly",
  "Any string, byte string, number, flag, hash, block, merkle node or transaction a connection accepts for writing is read back equal by the peer, consuming exactly the bytes written; a string or byte string it cannot frame is refused with an error and not sent. An object whose content does not match the id it was requested by is refused, and after an error nothing more is sent or accepted until the error is taken.",
  ["inputs"], "all field values, lengths including the 16-bit framing boundary, any delivery of the byte stream in pieces",
  "No test covers the connection layer.",
  ["pkg/prot/conn.go", "pkg/prot/core.go", "pkg/prot/primitives.go"],
  [("Read/Write pairs", "pkg/prot/core.go, pkg/prot/primitives.go"), ("length framing", "pkg/prot/conn.go")],
  [("err", "sticky connection error", "pkg/prot/conn.go Conn.err")],
  ["Conn methods over a TCP pair"])
p("C13", "Bytes from a hostile peer cannot crash or exhaust the node",
  "Whatever bytes a peer sends, handling them ends in a handled command, an error, or the end of the handling of that peer; the process never aborts, memory reserved stays proportional to the bytes actually received, and work stops when the bytes stop.",
  ["inputs", "fault_sequences"], "every byte stream up to the bound followed by close or silence, on every command and object reader",
  "No test covers peers; needs adversarial lengths and truncation points.",
  ["pkg/prot/core.go", "pkg/prot/primitives.go", "internal/peer/handlers.go", "internal/peer/sync.go", "internal/peer/peer.go"],
  [("error-sticky reads", "pkg/prot/*.go"), ("handlers", "internal/peer/handlers.go"), ("quickVerifyChain", "internal/peer/sync.go"), ("recover in Loop", "internal/peer/peer.go")],
  (), ["Peer.Loop outcome", "events published"])
p("C14", "Handshake and command arbitration keep both ends in step",
  "Two nodes complete a connection exactly when both speak this protocol and version and are different nodes, each then knowing the other's id. When both ends issue commands at the same moment, both are carried out exactly once in the same order on both ends and the connection stays usable.",
  ["inputs", "schedules"], "all handshake contents up to the bound; every pair of simultaneous commands; every delivery order of messages between the two ends",
  "No test connects two nodes.",
  ["pkg/prot/conn.go", "internal/peer/peer.go"],
  [("handshake", "pkg/prot/conn.go"), ("issueCommand", "internal/peer/peer.go")],
  (), ["NewConn result", "events each peer publishes"])
p("C15", "A lighter peer receives the heavier peer's chain and can apply it",
  "When two honest nodes synchronise, the one with less work ends up with every block, tree node and transaction it lacked, in an order its chain accepts, and adopts the heavier head; equal work or already known heads transfer nothing. A chain that is discontinuous, does not attach, does not exceed our work or lacks proof of work is refused without a candidate being published.",
  ["inputs", "histories"], "every pair of chains up to the bound (fork points, tree shapes, cross-block spends), every tampered chain offered",
  "No test synchronises two nodes.",
  ["internal/peer/sync.go", "internal/chain/chain.go"],
  [("handleSyncChain and friends, quickVerifyChain", "internal/peer/sync.go"), ("handleCandidateHead", "internal/chain/chain.go")],
  (), ["CandidateHead event", "receiver's ledger"])
p("C16", "Stored records read back identical",
  "Every block, merkle and transaction record, written in its stored text form and parsed again, is identical in every field, including empty lists, empty keys or signatures and extreme numbers; text that is not such a form is refused with an error rather than misread or aborting.",
  ["inputs"], "all field values, transactions up to 2 inputs x 2 outputs, keys/signatures up to 4 bytes; malformed row counts and rows",
  "Three tests each round-trip one sample record.",
  ["internal/inv/serialize.go", "pkg/core/hasht.go"],
  [("String / *FromString", "internal/inv/serialize.go")],
  (), ["String, BlockRecordFromString, MerkleRecordFromString, TxRecordFromString"])
p("C17", "A crash never leaves a saved object that reads back wrong",
  "If the process stops at any instant while saving, then on reopening the save directory every object is either absent or exactly as it was stored, nothing saved earlier is lost, and the saved head is the previous or the new one.",
  ["crash_points", "inputs"], "every instant during every file operation of a save, any prefix of a file's bytes written, all record values",
  "No test covers persistence or crashes.",
  ["pkg/disksyncmap/disksyncmap.go", "internal/chain/chain.go", "internal/inv/serialize.go"],
  [("saveFile/loadFile", "pkg/disksyncmap/disksyncmap.go"), ("saveHeadToFile/loadHeadFromFile", "internal/chain/chain.go")],
  (), ["files in the save directory", "reopened map / inventory"])
p("C18", "A restarted node resumes the same ledger",
  "A node restarted on its save directory adopts the head it had, with the same unspent outputs, balances, confirmations and inclusion records as before the restart, and can then accept the blocks it would have accepted had it not restarted.",
  ["histories"], "every saved history up to the bound, with and without pending transactions",
  "No test restarts a node.",
  ["internal/chain/chain.go", "internal/inv/inv.go", "pkg/disksyncmap/disksyncmap.go"],
  [("NewChain head loading", "internal/chain/chain.go"), ("auto-add of loaded txs", "internal/chain/state.go VerifyTxIncludable")],
  (), ["ledger queries after restart"])
p("C19", "A wallet payment pays what was asked and nothing else",
  "A payment built by the wallet pays each destination exactly the requested amount, returns the rest minus a fee of at least the requested rate to one of the wallet's own addresses, spends only the given outputs, each once and signed by its owner, fits the size limit and is admitted by a node. When that is impossible, building fails with an error, never a wrong payment or an abort.",
  ["inputs"], "all output values and amounts (64-bit), up to 3 outputs owned by up to 2 keys and 2 destinations",
  "No test builds a wallet transaction.",
  ["pkg/core/txfactory.go"],
  [("MakeOutboundTx", "pkg/core/txfactory.go")], (), ["MakeOutboundTx result", "StoreTx of the result"])
p("C20", "Wallet consolidation keeps the funds, minus a fee",
  "A consolidation transaction has one output, to one of the wallet's own addresses, worth exactly the inputs it spends minus a fee of the requested rate, spends only given outputs each once, richest first, fits the size limit and is admitted by a node. When that is impossible, building fails with an error, never a wrong payment or an abort.",
  ["inputs"], "all output values (64-bit), up to 3 outputs owned by up to 2 keys, size limits that cut the selection",
  "No test builds a consolidation.",
  ["pkg/core/txfactory.go"],
  [("MakeConsolidateTx", "pkg/core/txfactory.go")], (), ["MakeConsolidateTx result"])
p("C21", "Mining proposals are valid, non-conflicting and fee-ordered",
  "The transactions offered to miners are pending, spendable at the head, mutually non-conflicting and fit the block size, chosen greedily by fee rate. A block mined from the offer carries them after a coinbase of reward plus fees, for any number of miners sharing the offer, and is accepted by the node that mined it when the clock has advanced.",
  ["inputs", "histories"], "all pending sets up to the bound with arbitrary values and conflicts, one or two miners",
  "No test covers mining.",
  ["internal/chain/target.go", "internal/miner/miner.go", "internal/chain/state.go", "pkg/util/util.go"],
  [("CreateMiningTarget", "internal/chain/target.go"), ("updateTemplate, publishSolution", "internal/miner/miner.go")],
  (), ["MinerTarget event", "CandidateHead event", "candidate outcome"])
p("C22", "Ledger queries answer from the accepted chain",
  "Balances equal the sum of the unspent outputs owned, utxo lists are exactly those outputs (minus ones spent by pending transactions when asked), confirmations equal head height minus inclusion height plus one and zero when pending, the rich list is the n largest balances among the keys that own an output, and asking never changes the ledger.",
  ["inputs", "histories"], "all ledgers reachable within the bound, all values, all 64-bit list lengths",
  "No test queries the chain.",
  ["internal/chain/state.go", "internal/chain/chain.go"],
  [("GetPkhBalance, GetPkhUtxos, GetTxConfirms, GetRichList, GetTxIncludedBlock", "internal/chain/state.go")],
  (), ["bus queries"])
p("C23", "Every subscriber gets every message once, in order, under any schedule",
  "Each message published after a subscription is delivered to that subscriber exactly once, messages of one publisher in publication order, whatever the interleaving of publishers, subscribers and closings; closing a subscription never blocks, aborts or disturbs other subscribers.",
  ["schedules"], "every interleaving of up to 3 goroutines at every synchronisation operation, up to the stated message count",
  "One test logs what it receives under one schedule.",
  ["pkg/topic/topic.go", "pkg/syncqueue/syncqueue.go", "pkg/queue/queue.go"],
  [("Topic.Pub/Sub, SubCh.loop/Close", "pkg/topic/topic.go"), ("mutex-guarded queue", "pkg/syncqueue/syncqueue.go")],
  (), ["Sub.Pop, SubCh.C"])
p("C24", "The shared queue and map behave atomically",
  "Concurrent operations on the shared queue take effect one at a time: first in first out, nothing lost or duplicated, nothing after close. The shared maps return the value last stored for a key (on disk, where objects are stored under their own id: the value stored for it) and never a value for another key.",
  ["schedules", "inputs"], "every interleaving of two goroutines with two operations each, from any queue content up to the bound",
  "No test uses them concurrently in a checked way.",
  ["pkg/syncqueue/syncqueue.go", "pkg/queue/queue.go", "pkg/syncmap/syncmap.go", "pkg/disksyncmap/disksyncmap.go"],
  [("locking in every method", "pkg/syncqueue/syncqueue.go")], (), ["queue and map methods"])
p("C25", "Container helpers return right answers and leave their inputs alone",
  "Sets, queues and list/map helpers compute the set, order, copy, reversal, prefix and flattening they name for every content, and none of them modifies a list or map passed to it or shares storage that later use would corrupt.",
  ["inputs"], "all contents up to the bound, all spare capacities",
  "No test covers these packages.",
  ["pkg/set/set.go", "pkg/queue/queue.go", "pkg/util/util.go"],
  [("set, queue and util functions", "pkg/set, pkg/queue, pkg/util")], (), ["return values and argument contents"])
p("C26", "Ancestry questions are answered correctly on every tree of blocks",
  "For any known blocks, the ancestor lists, the ancestor at a given depth, the depth of an ancestor, the blocks between a descendant and an ancestor, and the most recent common ancestor are exactly those of the parent relation.",
  ["inputs"], "every tree of up to 6 blocks, every pair of blocks and every depth/length argument",
  "No test covers ancestry.",
  ["internal/inv/inv.go"],
  [("GetBlockAncestors, GetBlockSpecificAncestor, GetBlockAncestorDepth, GetBlockAncestorsUntil, GetBlockLCA", "internal/inv/inv.go")],
  (), ["Inv readers"])
p("C27", "Peer admission respects limits and never duplicates",
  "The node never holds more than the maximum number of peers, never two connections to the same node, never one to itself; a refused peer is told to close and offered the known addresses; a closing peer frees its slot and its address is forgotten.",
  ["histories", "inputs"], "every sequence up to the bound of new connections, announcements, address lists and closings",
  "No test covers the peer factory.",
  ["internal/peerfactory/peerfactory.go"],
  [("addConn, Loop", "internal/peerfactory/peerfactory.go")],
  [("knownPeers, knownPeerAddrs", "current peers and addresses", "internal/peerfactory/peerfactory.go")],
  ["messages sent to connections", "SendPeers events"])
p("C28", "The HTTP interface guards, validates and relays faithfully",
  "Administrative endpoints act only on requests carrying the configured password; every endpoint refuses unlisted methods and malformed or missing parameters with a client error and no effect; valid requests query exactly the ids given, and a posted transaction reaches the node unchanged or is refused.",
  ["inputs"], "every method, header and parameter value up to the bound on every endpoint",
  "No test covers the HTTP layer.",
  ["internal/rest/server.go", "internal/rest/wallet.go", "internal/rest/admin.go", "internal/rest/busclient.go"],
  [("mountHandlers", "internal/rest/server.go"), ("handlers", "internal/rest/wallet.go")], (), ["HTTP status and body", "bus events"])
p("C29", "A transaction is never included below its minimum block",
  "No block at a height below a transaction's minimum block that contains it is ever adopted, and miners are never offered it before the next block could carry it; from that height on the minimum no longer prevents inclusion.",
  ["inputs", "histories"], "all 64-bit minimum blocks at every height within the bound",
  "No test includes a transaction in a block.",
  ["internal/chain/state.go", "internal/chain/target.go"],
  [("VerifyTxIncludable, Advance", "internal/chain/state.go")], (), ["candidate outcome", "MinerTarget event"])
p("C30", "Hash text forms are unambiguous",
  "Every hash prints as 64 lower-case hex digits that parse back to it, and any text that is not 64 hex digits is refused; lists and maps of hashes convert element by element; conversions to and from big integers and byte lists are exact inverses.",
  ["inputs"], "all 256-bit values; all texts of length 62..66",
  "One test round-trips 100 random hashes.",
  ["pkg/core/hasht.go"],
  [("String, NewHashTFromString, BigInt, NewHashTFromBigInt, Marshal/Unmarshal", "pkg/core/hasht.go")], (), ["HashT conversions"])
p("C31", "Signing and key encoding round-trip",
  "A signature made with a key verifies under its encoded public key for the signed content and for no other, and encoded keys parse back to the same key.",
  ["inputs"], "all keys and messages", "Tests try one key and two messages.",
  ["pkg/core/crypto.go"], [("EcdsaSign, EcdsaVerify", "pkg/core/crypto.go")], (), ["crypto functions"])
p("C32", "The wallet file keeps every key",
  "Generating, importing and connecting never lose or alter a key already in the wallet, new keys are saved with the address shown to the user, a wallet command killed at any point leaves a wallet that loads with all earlier keys, and a key stored under another hash is refused.",
  ["inputs", "crash_points"], "all command sequences and all interruption points up to the bound, on the wallet program's real entry point", "No test covers the wallet program.",
  ["cmd/bcwallet/config.go", "cmd/bcwallet/cli.go", "cmd/bcwallet/bcwallet.go"], [("Save, GetConfig, AddKeys, VerifyKeys", "cmd/bcwallet/config.go")], (), ["wallet file", "program output"])

p("C33", "The wallet client relays faithfully",
  "The wallet client connects only to a node of its own version; every query reaches the node with exactly the ids and options given and returns exactly what the node answered; a sent transaction reaches the node unchanged, and success is reported exactly when the node took it, with its id.",
  ["inputs"], "all ids, answers, amounts and verdicts up to the bound on every client call, through the real server",
  "No test covers the client.",
  ["internal/rest/client/wallet.go", "internal/rest/client/util.go", "internal/rest/models/models.go"],
  [("WalletClient methods", "internal/rest/client/wallet.go"), ("MarshalJSON, UnmarshalJSON", "internal/rest/models/models.go")], (), ["client results", "bus events"])

p("C34", "The wallet program does what it shows",
  "The send and consolidate commands post one transaction, only after a yes, that pays exactly what the user asked for and was shown from the wallet's own outputs, and report success exactly when the node took it; malformed destinations send nothing; the balance command shows each address once and the true total.",
  ["inputs"], "all amounts, balances, destinations and answers up to the bound, typed at the wallet program's real entry point and served by the real server",
  "No test covers the wallet program.",
  ["cmd/bcwallet/bcwallet.go", "cmd/bcwallet/cli.go", "internal/rest/client/wallet.go", "pkg/core/txfactory.go"],
  [("commands: send, consolidate, balance", "cmd/bcwallet/bcwallet.go"), ("Execute, ReadInput", "cmd/bcwallet/cli.go")], (), ["program output", "bus events"])

p("C35", "Connected nodes converge",
  "In a network of honest nodes, connected directly or through others, every block that makes the heaviest chain and every admissible transaction given to one node reaches all the others; once activity stops all nodes are on the heaviest chain with the same ledger and the pending transactions they were given, and a node that joins later takes over the chain.",
  ["inputs", "history", "schedule"], "all amounts and short histories of transactions, blocks and joins over up to three whole nodes, wired together as the node program wires them",
  "No test runs more than one component; convergence depends on the whole chain of events from chain to peer to connection to peer to chain.",
  ["internal/chain/chain.go", "internal/peerfactory/peerfactory.go", "internal/peer/peer.go", "internal/peer/sync.go", "internal/peer/handlers.go", "pkg/prot/conn.go"],
  [("PeerFactory.Loop, addConn", "internal/peerfactory/peerfactory.go"), ("Peer.Loop", "internal/peer/peer.go"), ("handleCandidateHead, handleCandidateTx", "internal/chain/chain.go")], (), ["announced heads", "bus queries"])
p("C36", "The node program does what its flags say",
  "A started node program serves exactly the interfaces enabled, on the given port, under the version of its network and with the given password; connects to the given seeds unless it starts a new network; listens only when told and under the given address; resumes and saves its chain in the given directory only; follows the network named and no other; mines to the given payout address exactly when told; and ends exactly when an authorised request says so.",
  ["inputs", "configuration", "history"], "all combinations of flags, passwords and amounts, over short histories",
  "No test starts the program; the guarantees of every component depend on how the program wires and configures them.",
  ["cmd/bcnode/bcnode.go", "cmd/bcnode/flags.go", "internal/rest/server.go", "internal/rest/params.go", "internal/peerfactory/params.go", "pkg/core/params.go"],
  [("main", "cmd/bcnode/bcnode.go"), ("ParseFlags", "cmd/bcnode/flags.go"), ("DevNetParams, ProdNetParams", "pkg/core/params.go")], (), ["HTTP interface", "connections made and accepted", "save directory"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
