seed("reorg-unreserved", "C05",
 [("internal/chain/state.go", """		s.mempoolRates[txId] = tx.Rate()
		for _, utxo := range tx.GetConsumedUtxos() {
			if _, ok := s.mempoolUtxoSpends[utxo]; !ok {
				s.mempoolUtxoSpends[utxo] = set.NewSet[core.HashT]()
			}
			s.mempoolUtxoSpends[utxo].Add(txId)
		}
		// Return the tx inputs
""", """		s.mempoolRates[txId] = tx.Rate()
		// Return the tx inputs
"""),
  ("internal/chain/state.go", """			if !ok {
				return fmt.Errorf(
					"state corrupt - %s missing mempool utxo set for %v", txId, utxo,
				)
			}
			if !txIds.Remove(txId) {
				return fmt.Errorf("state corrupt - mempool utxo set missing tx %s", txId)
			}
			if""", """			if !ok {
				continue
			}
			txIds.Remove(txId)
			if""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// A payment displaced by a switch to a heavier branch is pending again: its input must be reserved.
func main() {
	p := testParams()
	a, b := keyN(0), keyN(1)
	n := newNode(p, false, nil)
	b1 := next(p, nil, a.pkh)
	t := pay(a, utxoOf(b1.txs[0], 0), out(900, b.pkh))
	b2 := next(p, b1, b.pkh, t)
	n.adopt(b2)
	c2 := rawBlock(b1, p.OriginalTarget, timeAt(2)+3, []core.Tx{coinbase(2, p.BlockReward, b.pkh)})
	n.adopt(next(p, c2, b.pkh))
	check(len(n.utxos(false, a.pkh)) == 1, "displaced spend not undone")
	check(len(n.utxos(true, a.pkh)) == 0, "the input of a displaced payment is offered for spending again")
}
""",
 "a reorganisation that displaces a payment, then a query for unspent outputs without pending spends",
 "transactions displaced by a reorganisation are pending without their inputs being reserved")

seed("copy-shares-reservations", "C04",
 [("internal/chain/state.go", "newMempoolUtxoSpends[utxo] = txIds.Copy()", "newMempoolUtxoSpends[utxo] = txIds")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// A refused switch leaves pending transactions as they were.
func main() {
	p := testParams()
	a, b := keyN(0), keyN(1)
	n := newNode(p, false, nil)
	b1 := next(p, nil, a.pkh)
	n.adopt(b1)
	u := utxoOf(b1.txs[0], 0)
	t := pay(a, u, out(900, b.pkh))
	t2 := pay(a, u, out(800, b.pkh))
	setup(n.offerTx(t))
	setup(n.offerTx(t2))
	// a heavier branch whose first new block carries t and whose second double spends its input
	b2 := next(p, b1, b.pkh, t)
	t3 := pay(a, u, out(700, b.pkh))
	b3 := next(p, b2, b.pkh, t3)
	n.offer(b3.id, b2, b3)
	check(n.head() == b1.id, "setup: bad branch adopted")
	// the honest block with t must still be accepted
	n.offer(b2.id)
	check(n.head() == b2.id, "a valid heavier block is refused after a failed switch")
	_ = core.HashT{}
}
""",
 "two pending transactions that spend the same output, and a switch that fails after its first block was applied",
 "a failed switch removes the reservations of pending transactions; the node then refuses valid blocks that carry them")

seed("median-of-even", "C06",
 [("pkg/core/verify.go", "median = (times[len(times)/2-1] + times[len(times)/2]) / 2", "median = times[len(times)/2-1]")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// The time of a third block must be above the median (mean) of the two before it.
func main() {
	p := testParams()
	a := keyN(0)
	n := newNode(p, false, nil)
	b1 := next(p, nil, a.pkh)
	b2 := next(p, b1, a.pkh)
	n.adopt(b2)
	b3 := rawBlock(b2, p.OriginalTarget, timeAt(1)+2, []core.Tx{coinbase(3, p.BlockReward, a.pkh)})
	n.offer(b3.id, b3)
	check(n.head() == b2.id, "block older than the median of its ancestors accepted")
}
""",
 "a block with an even number (two or four) of ancestors, timed between the lower middle and the mean of the middle times",
 "a block not later than the median of its ancestors is accepted")

seed("overlap-leaf", "C11",
 [("pkg/core/verify.go", """		lTxs := set.NewSetFromList(v.inv.GetMerkleTxIds(node.LChild))
""", """		// Two leaves that differ cannot overlap
		if !v.inv.HasMerkle(node.LChild) || !v.inv.HasMerkle(node.RChild) {
			return v.verifyMerkleSize(totalSize)
		}
		lTxs := set.NewSetFromList(v.inv.GetMerkleTxIds(node.LChild))
"""),
 ("pkg/core/verify.go", """	// Verify this merkle node doesn't create a tree over size limits
	if""", """	return v.verifyMerkleSize(totalSize)
}

// Verify a merkle node doesn't create a tree over size limits.
func (v Verifier) verifyMerkleSize(totalSize uint64) error {
	if""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// A node joining a transaction with a tree that already holds it repeats the transaction.
func main() {
	p := testParams()
	a := keyN(0)
	n := newNode(p, false, nil)
	t := coinbase(1, p.BlockReward, a.pkh)
	setup(n.inv.StoreTx(t))
	m := core.MerkleNode{LChild: t.Hash(), RChild: t.Hash()}
	setup(n.inv.StoreMerkle(m))
	check(n.inv.StoreMerkle(core.MerkleNode{LChild: t.Hash(), RChild: m.Hash()}) != nil, "a tree holding one transaction twice is accepted")
}
""",
 "a tree node with a transaction on one side and, on the other, a tree that contains the same transaction",
 "a block tree may contain one transaction twice")

seed("head-file-reorg", "C18",
 [("internal/chain/chain.go", """	if c.saveDir != nil {
		err := c.saveHeadToFile(c.state.head)""", """	if c.saveDir != nil && lcaId == curHead {
		err := c.saveHeadToFile(c.state.head)""")],
 """
package main

import (
	"os"
	"time"

	"github.com/levilutz/basiccoin/pkg/core"
)

// After a switch of branches and a restart, the node is on the new branch.
func main() {
	p := testParams()
	a, b := keyN(0), keyN(1)
	d := os.Getenv("SCRATCH") + "/save"
	n := newNode(p, false, &d)
	b1 := next(p, nil, a.pkh)
	b2 := next(p, b1, a.pkh)
	n.adopt(b2)
	c2 := rawBlock(b1, p.OriginalTarget, timeAt(2)+3, []core.Tx{coinbase(2, p.BlockReward, b.pkh)})
	c3 := next(p, c2, b.pkh)
	n.adopt(c3)
	n = newNode(p, false, &d)
	time.Sleep(200 * time.Millisecond)
	check(n.head() == c3.id, "the restarted node is not on the branch it had adopted")
}
""",
 "a reorganisation followed by a restart, before any further block",
 "a head adopted by a reorganisation is not saved; a restarted node resumes the abandoned branch")

seed("offer-conflict", "C21",
 [("internal/chain/target.go", "if consumedUtxos.IncludesAny(txUtxos...) {", "if len(txUtxos) > 0 && consumedUtxos.Includes(txUtxos[0]) {")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// Transactions offered to miners never spend the same output.
func main() {
	p := testParams()
	a, b := keyN(0), keyN(1)
	n := newNode(p, true, nil)
	b2 := chainOf(p, nil, 2, a.pkh)
	n.adopt(b2)
	u1, u2 := utxoOf(b2.prev.txs[0], 0), utxoOf(b2.txs[0], 0)
	t1 := pay(a, u2, out(500, b.pkh))
	t2 := payN(a, 0, []core.Utxo{u1, u2}, out(1900, b.pkh))
	setup(n.offerTx(t1))
	setup(n.offerTx(t2))
	check(len(n.target().TxIds) == 1, "miners are offered two transactions that spend the same output")
}
""",
 "two pending transactions in conflict over an output that is not the first input of the one with the lower fee rate",
 "conflicting transactions are offered to miners, so the blocks they mine are refused")

seed("minblock-later-head", "C29",
 [("internal/chain/state.go", """	if height+1 < tx.MinBlock {""", """	if height+1 < tx.MinBlock && !s.mempool.Includes(txId) {"""),
  ("internal/chain/state.go", """		if height < tx.MinBlock {
			return fmt.Errorf("tx cannot be included in block - too low")
		}
		// Remove""", """		if tx.IsCoinbase && height < tx.MinBlock {
			return fmt.Errorf("tx cannot be included in block - too low")
		}
		// Remove""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// A transaction with minimum block 3 cannot be in block 2.
func main() {
	p := testParams()
	a, b := keyN(0), keyN(1)
	n := newNode(p, false, nil)
	b1 := next(p, nil, a.pkh)
	n.adopt(b1)
	t := payN(a, 3, []core.Utxo{utxoOf(b1.txs[0], 0)}, out(900, b.pkh))
	b2 := next(p, b1, b.pkh, t)
	n.offer(b2.id, b2)
	check(n.head() == b1.id, "block 2 with a transaction of minimum block 3 adopted")
}
""",
 "a pending transaction whose minimum block lies above the block that carries it (two sites cooperate)",
 "the minimum block of pending transactions is not enforced")

seed("exclude-destroys", "C22",
 [("internal/chain/state.go", """		// If we don't copy, the following filter will delete utxos off the actual state
		utxos = utxos.Copy()
		utxos.Filter(""", """		// Only copy if there is something to exclude
		if len(s.mempoolUtxoSpends) > utxos.Size() {
			utxos = utxos.Copy()
		}
		utxos.Filter(""")],
 """
package main

// Asking for unspent outputs does not change them.
func main() {
	p := testParams()
	a, b := keyN(0), keyN(1)
	n := newNode(p, false, nil)
	b1 := next(p, nil, a.pkh)
	n.adopt(b1)
	setup(n.offerTx(pay(a, utxoOf(b1.txs[0], 0), out(900, b.pkh))))
	check(len(n.utxos(true, a.pkh)) == 0, "setup: pending spend not excluded")
	check(n.balances(a.pkh)[a.pkh] == 1000, "asking for unspent outputs changed the balance")
}
""",
 "a query that excludes pending spends, followed by any other query or block",
 "a query removes the outputs it excludes from the ledger")

seed("second-input-owner", "C03",
 [("pkg/core/verify.go", """	for _, txi := range tx.Inputs {
		if !v.inv.HasTxOut(""", """	owners := set.NewSet[HashT]()
	for _, txi := range tx.Inputs {
		if !v.inv.HasTxOut("""),
  ("pkg/core/verify.go", """		if !DHashBytes(txi.PublicKey).Eq(origin.PublicKeyHash) {
			return""", """		owners.Add(origin.PublicKeyHash)
		if !owners.Includes(DHashBytes(txi.PublicKey)) {
			return""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// Every input must be signed by the owner of the output it names.
func main() {
	p := testParams()
	a, b := keyN(0), keyN(1)
	n := newNode(p, false, nil)
	b1 := next(p, nil, a.pkh)
	b2 := next(p, b1, b.pkh)
	n.adopt(b2)
	// the owner of the first output also takes the second
	t := payN(a, 0, []core.Utxo{utxoOf(b1.txs[0], 0), utxoOf(b2.txs[0], 0)}, out(1900, a.pkh))
	check(n.offerTx(t) != nil, "an output was spent with another owner's key")
}
""",
 "a transaction with two inputs of different owners, both signed by the owner of the first",
 "whoever owns one input of a transaction can spend anyone's outputs in the other inputs")
