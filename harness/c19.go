package zharness

import (
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// A payment pays exactly what was asked, from given outputs only, and is admitted by a node; when that is impossible building fails.
// bounds: 0..3 outputs (4 thorough) of any worth owned by two keys, 0..2 destinations (one may be an own address) with any amounts, fee rates 1, 1/4 and 5/2, size limits that admit any, one, two or no inputs, every minimum block
// assumes: ideal signatures; the network's outputs sum below 2^64
// reach: built failed
// cfg: paths=40000 budget=500
func C19_pay() {
	w := newPurse(zverif.Tier(3, 4), 4)
	zverif.Assume(fits64(w.top))
	minBlock := zverif.U64("minblock")
	dests := map[core.HashT]uint64{}
	var to []core.HashT
	var amounts []uint64
	for i, n := 0, zverif.Int("destinations", 0, 2); i < n; i++ {
		pkh := tag(byte(i))
		if i == 0 && zverif.Bool("to self") {
			pkh = w.keys[1].pkh
		}
		a := zverif.U64("amount" + sprint(i))
		dests[pkh] = a
		to, amounts = append(to, pkh), append(amounts, a)
	}
	tx, err := core.MakeOutboundTx(w.p, w.privs, w.m, dests, w.rate, minBlock)

	possible := false
	for k := 1; k <= len(w.utxos); k++ {
		size := w.sizeOf(k, len(to)+1)
		need := append([]uint64{w.fee(size)}, amounts...)
		if size <= w.p.MaxTxVSize {
			possible = zverif.Or(possible, zverif.SumCmp(w.top[:k], need) >= 0)
		}
	}
	if err != nil {
		ok(zverif.Not(possible), "a possible payment is not built")
		ok(tx == nil, "a failed payment returns a transaction")
		zverif.Reach("failed")
		return
	}
	ok(possible, "an impossible payment is built")
	ok(!tx.IsCoinbase && tx.MinBlock == minBlock, "the payment's header fields are wrong")
	w.checkInputs(*tx)
	// each destination exactly, one more output as change
	ok(len(tx.Outputs) == len(to)+1, "the payment has other outputs than asked for plus change")
	used := map[int]bool{}
	for i, pkh := range to {
		found := false
		for k, o := range tx.Outputs {
			if !used[k] && !found && o.PublicKeyHash == pkh && o.Value == amounts[i] {
				used[k], found = true, true
			}
		}
		ok(found, "a destination is not paid exactly the amount asked for")
	}
	var change core.TxOut
	for k, o := range tx.Outputs {
		if !used[k] {
			change = o
		}
	}
	ok(w.own(change.PublicKeyHash), "the change goes to an address of another owner")
	ok(zverif.SumCmp(outVals(*tx), inVals(*tx)) < 0, "the payment is worth more than it spends")
	fee := tx.InputsValue() - tx.OutputsValue()
	ok(fee >= w.fee(tx.VSize()), "the fee is below the requested rate")
	ok(fee <= w.fee(w.sizeOf(len(tx.Inputs), len(tx.Outputs))), "the fee is above the requested rate")
	ok(tx.VSize() <= w.p.MaxTxVSize, "the payment is over the size limit")
	ok(w.v.StoreTx(*tx) == nil, "the payment is not admitted by a node")
	zverif.Reach("built")
}

// Nothing is built from outputs the wallet has no key for.
// bounds: 1..2 outputs, one of a foreign key, any worth, any amount
// reach: failed
// cfg: paths=2000
func C19_foreign() {
	w := newPurse(2, 1)
	cb := coinbase(9, zverif.U64("foreign"), keyN(2).pkh)
	setup(w.v.StoreTx(cb))
	w.m[utxoOf(cb, 0)] = keyN(2).pkh
	_, err := core.MakeOutboundTx(w.p, w.privs, w.m, map[core.HashT]uint64{tag(1): zverif.U64("amount")}, w.rate, 0)
	ok(err != nil, "a payment is built from an output of an unknown key")
	if len(w.utxos) > 0 {
		_, err = core.MakeConsolidateTx(w.p, w.privs, w.m, w.rate, 0)
		ok(err != nil, "a consolidation is built from an output of an unknown key")
	}
	zverif.Reach("failed")
}
