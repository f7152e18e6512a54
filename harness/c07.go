package zharness

import (
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

func (d *admission) checkExact() {
	good := d.wellFormed()
	id := d.tx.Hash()
	if d.err == nil {
		ok(good, "a transaction that is not well formed is admitted")
		ok(d.v.HasTx(id), "an admitted transaction is not known under its id")
		ok(sameTx(d.v.GetTx(id), d.tx), "an admitted transaction is stored changed")
		ok(d.v.GetTxVSize(id) == d.tx.VSize(), "an admitted transaction's size is recorded wrong")
		for k, o := range d.tx.Outputs {
			ok(d.v.HasTxOut(id, uint64(k)), "an output of an admitted transaction is not known")
			g := d.v.GetTxOut(id, uint64(k))
			ok(g.Value == o.Value && g.PublicKeyHash == o.PublicKeyHash, "an output of an admitted transaction is stored changed")
		}
		ok(!d.v.HasTxOut(id, uint64(len(d.tx.Outputs))), "an output that does not exist is known")
		ok(d.v.StoreTx(d.tx) != nil, "a known transaction is admitted again")
		zverif.Reach("admitted")
	} else {
		ok(zverif.Not(good), "a well formed transaction is refused")
		ok(!d.v.HasTx(id), "a refused transaction is known afterwards")
		ok(!d.v.HasEntity(id), "a refused transaction is known afterwards")
		zverif.Reach("refused")
	}
	ok(d.v.HasTx(d.a.Hash()) && d.v.HasTx(d.b.Hash()), "offering a transaction removed another")
}

// A transaction is admitted exactly when it is well formed, and stored unchanged under its id.
// bounds: 0..2 inputs (0..1 with every combination of place, key and signature), 0..2 outputs, every index, value, minimum block, reward; coinbase or not
// assumes: two known transactions, a coinbase and a payment with two outputs to different keys, all values arbitrary
// reach: admitted refused
// cfg: paths=40000 budget=300
func C07_admit() {
	d := newAdmission()
	flag := zverif.Bool("coinbase")
	d.offer(zverif.Int("nin", 0, 2), zverif.Int("nout", 0, 2), flag)
	d.checkExact()
}

// The size limit counts every byte of the transaction.
// bounds: every limit, one or two inputs, 0..2 outputs
// reach: admitted refused
func C07_size() {
	p := testParams()
	p.MaxTxVSize = zverif.U64("limit")
	k := keyN(0)
	v := inv.NewInv(p, nil)
	cb := coinbase(1, 5000, k.pkh)
	cbSize := uint64(72 + 40)
	if zverif.Bool("coinbase only") {
		err := v.StoreTx(cb)
		ok((err == nil) == (cbSize <= p.MaxTxVSize), "a coinbase is admitted although over the size limit, or refused within it")
		return
	}
	zverif.Assume(p.MaxTxVSize >= cbSize)
	setup(v.StoreTx(cb))
	cb2 := coinbase(2, 6000, k.pkh)
	setup(v.StoreTx(cb2))
	outs := []core.TxOut{}
	for i, n := 0, zverif.Int("nout", 0, 2); i < n; i++ {
		outs = append(outs, out(uint64(i+1), tag(byte(i))))
	}
	ins := []core.Utxo{utxoOf(cb, 0), utxoOf(cb2, 0)}[:zverif.Int("nin", 1, 2)]
	tx := payN(k, 3, ins, outs...)
	size := uint64(72 + 40*len(outs))
	for _, i := range tx.Inputs {
		size += 48 + uint64(len(i.PublicKey)+len(i.Signature))
	}
	ok(tx.VSize() == size, "a transaction's size is not the sum of its parts")
	err := v.StoreTx(tx)
	if err == nil {
		ok(size <= p.MaxTxVSize, "a transaction over the size limit is admitted")
		zverif.Reach("admitted")
	} else {
		ok(size > p.MaxTxVSize, "a transaction within the size limit is refused")
		zverif.Reach("refused")
	}
}
