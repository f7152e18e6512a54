package zharness

import (
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// No transaction worth more than it spends is ever admitted, in true arithmetic.
// bounds: 0..2 inputs, 0..3 outputs, every value
// assumes: two known transactions with arbitrary values; inputs name known outputs and are correctly signed
// reach: admitted refused
// cfg: paths=20000 budget=300
func C01_tx() {
	d := newAdmission()
	// three outputs exist: A[0], B[0] of key 0 and B[1] of key 1
	var ins []core.Utxo
	var owners []key
	k0, k1 := keyN(0), keyN(1)
	for k, n := 0, zverif.Int("nin", 0, 2); k < n; k++ {
		switch zverif.Choice("in"+sprint(k), 3) {
		case 0:
			ins, owners = append(ins, utxoOf(d.a, 0)), append(owners, k0)
		case 1:
			ins, owners = append(ins, utxoOf(d.b, 0)), append(owners, k0)
		case 2:
			ins, owners = append(ins, utxoOf(d.b, 1)), append(owners, k1)
		}
	}
	tx := core.Tx{Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	for k, n := 0, zverif.Int("nout", 0, 3); k < n; k++ {
		tx.Outputs = append(tx.Outputs, out(zverif.U64("out"+sprint(k)), tag(byte(k+1))))
	}
	for k, u := range ins {
		u.Value = zverif.U64("value" + sprint(k))
		tx.Inputs = append(tx.Inputs, core.TxIn{Utxo: u, PublicKey: owners[k].pub, Signature: sign(owners[k], 0, tx.Outputs)})
	}
	if d.v.StoreTx(tx) != nil {
		zverif.Reach("refused")
		return
	}
	var have []uint64 // the true worth of the outputs spent, each counted once
	for k, u := range ins {
		dup := false
		for _, w := range ins[:k] {
			if w.TxId == u.TxId && w.Ind == u.Ind {
				dup = true
			}
		}
		if !dup {
			have = append(have, u.Value)
		}
	}
	ok(zverif.SumCmp(outVals(tx), have) < 0, "a transaction worth more than it spends is admitted")
	ok(fits64(have), "a transaction whose inputs do not fit in 64 bits is admitted")
	zverif.Reach("admitted")
}

// Whatever a coinbase and the transactions of a block claim, the coins of an accepted chain are the rewards.
// bounds: chains of 1..3 blocks, each with an arbitrary coinbase value and none, one or two (one spending the other) payments with arbitrary amounts, arbitrary reward
// assumes: ideal hash and signature
// reach: adopted refused
// cfg: paths=20000 budget=400
func C01_chain() {
	p := testParams()
	p.BlockReward = zverif.U64("reward")
	zverif.Assume(p.BlockReward > 0)
	n := newNode(p, false, nil)
	k0 := keyN(0)
	var head *blk
	var avail []core.Utxo // own outputs on the chain
	height := zverif.Int("blocks", 1, 3)
	for h := 0; h < height; h++ {
		var txs []core.Tx
		name := "b" + sprint(h) + "."
		if len(avail) > 0 {
			u := avail[0]
			for k, m := 0, zverif.Int(name+"txs", 0, 2); k < m; k++ {
				t := pay(k0, u, out(zverif.U64(name+"o"+sprint(k)), k0.pkh), out(zverif.U64(name+"q"+sprint(k)), k0.pkh))
				txs = append(txs, t)
				u = utxoOf(t, 0)
			}
		}
		cb := coinbase(uint64(h+1), zverif.U64(name+"coinbase"), k0.pkh)
		b := rawBlock(head, p.OriginalTarget, timeAt(uint64(h+1)), append([]core.Tx{cb}, txs...))
		n.offer(b.id, b)
		got, any := n.lastHead()
		if !any {
			zverif.Reach("refused")
			break
		}
		ok(got == b.id, "another block is adopted")
		head = b
		avail = []core.Utxo{utxoOf(cb, 0)}
		var values, rewards []uint64
		for u := range n.utxos(false, k0.pkh) {
			values = append(values, u.Value)
		}
		for i := 0; i <= h; i++ {
			rewards = append(rewards, p.BlockReward)
		}
		ok(zverif.SumCmp(values, rewards) == 0, "the unspent outputs are not worth exactly the block rewards")
		ins, outs := []uint64{p.BlockReward}, []uint64{}
		for _, t := range b.txs {
			ins, outs = append(ins, inVals(t)...), append(outs, outVals(t)...)
		}
		ok(zverif.SumCmp(ins, outs) == 0, "a block's outputs are not worth its inputs plus the reward")
		zverif.Reach("adopted")
	}
}
