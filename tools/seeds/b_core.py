seed("pay-yourself", "C19",
 [("pkg/core/txfactory.go", """		Outputs:    make([]TxOut, len(dests)+1),
""", """		Outputs:    make([]TxOut, 1, len(dests)+1),
"""), ("pkg/core/txfactory.go", """	i := 1
	for pkh, val := range dests {
		tx.Outputs[i] = TxOut{
			Value:         val,
			PublicKeyHash: pkh,
		}
		i++
	}
""", """	for pkh, val := range dests {
		if pkh == richestPkh {
			// Shares the change output
			tx.Outputs[0].Value = val
			continue
		}
		tx.Outputs = append(tx.Outputs, TxOut{
			Value:         val,
			PublicKeyHash: pkh,
		})
	}
""")],
 """
package main

import (
	"crypto/ecdsa"

	"github.com/levilutz/basiccoin/pkg/core"
)

// A payment to one's own richest address is an output of exactly that amount, and nothing beyond the fee is lost.
func main() {
	p := testParams()
	a, b := keyN(0), keyN(1)
	b1 := next(p, nil, a.pkh)
	u := utxoOf(b1.txs[0], 0)
	tx, err := core.MakeOutboundTx(p, []*ecdsa.PrivateKey{a.priv}, map[core.Utxo]core.HashT{u: a.pkh},
		map[core.HashT]uint64{a.pkh: 300, b.pkh: 200}, 0.1, 0)
	setup(err)
	n := 0
	sum := uint64(0)
	for _, o := range tx.Outputs {
		sum += o.Value
		if o.PublicKeyHash == a.pkh && o.Value == 300 {
			n++
		}
	}
	check(n >= 1, "the requested payment to ourselves is missing")
	check(1000-sum < 60, "the fee swallowed the payment")
}
""",
 "a payment whose destinations include the wallet's own richest address",
 "that payment is lost: the change overwrites it and the amount becomes fee")

seed("retarget-first-period", "C08",
 [("pkg/core/difficulty.go", "	if headHeight < params.DifficultyPeriod {\n		firstHeight = 1", "	if headHeight <= params.DifficultyPeriod+1 {\n		firstHeight = 1"),
  ("pkg/core/difficulty.go", "	desiredTime := params.BlockTargetTime * numBlocksMeasured\n", "	desiredTime := params.BlockTargetTime * (headHeight%params.DifficultyPeriod - 1)\n	if headHeight > params.DifficultyPeriod {\n		desiredTime += params.BlockTargetTime\n	}\n")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// The time measured early in a later period is that period's own.
func main() {
	p := testParams()
	n := newNode(p, false, nil)
	b := chainOf(p, nil, 3, keyN(0).pkh)
	t4 := core.NextTarget(p, mapInv(b), b.id)
	b4 := rawBlock(b, t4, timeAt(4)+50, []core.Tx{coinbase(4, p.BlockReward, keyN(0).pkh)})
	b5 := rawBlock(b4, t4, timeAt(5)+50, []core.Tx{coinbase(5, p.BlockReward, keyN(0).pkh)})
	n.adopt(b5)
	act, want, err := core.ExpectedTargetAdjustment(p, n.inv, b5.id)
	setup(err)
	check(act == 10 && want == 10, "the measured time reaches back before the period")
}

func mapInv(b *blk) core.InvTargeter {
	n := newNode(testParams(), false, nil)
	n.adopt(b)
	return n.inv
}
""",
 "a difficulty question asked at the second block after a retarget",
 "the expected adjustment early in the second period is measured from the first block of the chain")

seed("ancestors-until-child", "C26",
 [("internal/inv/inv.go", """	depth := uint64(0)
	for blockId != ancestorId && !blockId.EqZero() {
		blockId = inv.GetBlockParentId(blockId)
		depth += 1
	}
	if blockId != ancestorId {""", """	depth := uint64(0)
	ancestorHeight := inv.GetBlockHeight(ancestorId)
	for inv.GetBlockHeight(blockId) > ancestorHeight {
		blockId = inv.GetBlockParentId(blockId)
		depth += 1
	}
	if depth == 0 && blockId != ancestorId {""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// A block on another branch is not an ancestor.
func main() {
	p := testParams()
	a := keyN(0)
	n := newNode(p, false, nil)
	b1 := next(p, nil, a.pkh)
	b3 := chainOf(p, b1, 2, a.pkh)
	c2 := rawBlock(b1, p.OriginalTarget, timeAt(2)+1, []core.Tx{coinbase(2, p.BlockReward, keyN(1).pkh)})
	store(n.inv, b3)
	store(n.inv, c2)
	_, is := n.inv.GetBlockAncestorDepth(b3.id, c2.id)
	check(!is, "a block of another branch is reported as ancestor")
}
""",
 "an ancestor question about a lower block of another branch",
 "blocks of other branches count as ancestors")

seed("trim-record", "C16",
 [("internal/inv/serialize.go", """		rows = append(rows, []string{
			strconv.FormatUint(output.Value, 10),""", """		rows = append(rows, []string{
			strconv.FormatInt(int64(output.Value), 10),"""),
  ("internal/inv/serialize.go", """		value, err := strconv.ParseUint(rows[currentRow], 10, 64)
		currentRow++
		if err != nil {
			return TxRecord{}, fmt.Errorf("failed to parse output %d Value: %s", i, err)
		}""", """		signed, err := strconv.ParseInt(rows[currentRow], 10, 64)
		currentRow++
		if err != nil || signed < 0 {
			return TxRecord{}, fmt.Errorf("failed to parse output %d Value: %v", i, err)
		}
		value := uint64(signed)""")],
 """
package main

import (
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/pkg/core"
)

// A stored transaction with a very large amount reads back.
func main() {
	t := core.Tx{Inputs: []core.TxIn{}, Outputs: []core.TxOut{out(1<<63+5, keyN(0).pkh)}}
	r, err := inv.TxRecordFromString(inv.TxRecord{Tx: t, VSize: t.VSize()}.String())
	check(err == nil, "stored transaction does not parse")
	check(r.Tx.Outputs[0].Value == 1<<63+5, "stored amount reads back different")
}
""",
 "a transaction with an output value of 2^63 or more",
 "records of transactions with very large outputs cannot be read back")

seed("hash-text-prefix", "C30",
 [("pkg/core/hasht.go", """	decoded, err := hex.DecodeString(data)
	if err != nil {
		return HashT{}, err
	}
	out := HashT{}
	copy(out.data[:], decoded)
	return out, nil""", """	out := HashT{}
	val, ok := (&big.Int{}).SetString(data, 16)
	if !ok {
		_, err := hex.DecodeString(data)
		return HashT{}, err
	}
	val.FillBytes(out.data[:])
	return out, nil""")],
 """
package main

import (
	"strings"

	"github.com/levilutz/basiccoin/pkg/core"
)

// Only 64 hex digits name a hash.
func main() {
	_, err := core.NewHashTFromString("-" + strings.Repeat("1", 63))
	check(err != nil, "text with a sign is taken for a hash")
}
""",
 "a 64 character text that starts with a sign",
 "text that is not 64 hex digits is read as a hash")

seed("consolidate-size", "C20",
 [("pkg/core/txfactory.go", "		if tx.VSize()+txIn.VSize() > params.MaxTxVSize {\n			break\n		}\n		totalIn += utxo.Value\n		tx.Inputs = append(tx.Inputs, txIn)", "		if tx.VSize()+txIn.VSize() >= params.MaxTxVSize {\n			if len(tx.Inputs) > 1 {\n				break\n			}\n		}\n		totalIn += utxo.Value\n		tx.Inputs = append(tx.Inputs, txIn)")],
 """
package main

import (
	"crypto/ecdsa"

	"github.com/levilutz/basiccoin/pkg/core"
)

// A consolidation never exceeds the size limit.
func main() {
	p := testParams()
	p.MaxTxVSize = 400
	a := keyN(0)
	b := chainOf(p, nil, 3, a.pkh)
	us := map[core.Utxo]core.HashT{}
	for _, x := range b.path() {
		us[utxoOf(x.txs[0], 0)] = a.pkh
	}
	tx, err := core.MakeConsolidateTx(p, []*ecdsa.PrivateKey{a.priv}, us, 0.1, 0)
	check(err != nil || len(tx.Inputs) < 2, "a consolidation beyond the size limit was built")
}
""",
 "a network whose size limit leaves room for a single input",
 "consolidations that exceed the size limit are built")

seed("burn", "C01",
 [("pkg/core/verify.go", "	if totalInputs != totalOutputs {", "	if int64(totalInputs) < int64(totalOutputs) {")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// A block pays out exactly its inputs plus the reward.
func main() {
	p := testParams()
	a := keyN(0)
	n := newNode(p, false, nil)
	b1 := rawBlock(nil, p.OriginalTarget, timeAt(1), []core.Tx{coinbase(1, 1<<63+7, a.pkh)})
	n.offer(b1.id, b1)
	check(n.head() != b1.id, "a block that mints 2^63 coin adopted")
}
""",
 "a coinbase worth 2^63 or more",
 "coins beyond the reward are minted")
