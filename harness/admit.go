package zharness

import (
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// admission: an inventory holding a coinbase A (one output, key 0) and a payment B spending it (outputs to
// key 0 and key 1), everything with arbitrary values, and one further arbitrary transaction offered to it.
type admission struct {
	p    core.Params
	v    *inv.Inv
	a, b core.Tx
	tx   core.Tx
	err  error
	in   []inFacts
}

type inFacts struct {
	known       bool // names an existing output of a known transaction
	value       bool // the stated value is that output's
	owner       bool // the public key hashes to that output's owner
	signed      bool // the signature is the key's, over exactly this content
	originOwner core.HashT
}

const maxU64 = ^uint64(0)

func fits64(vs []uint64) bool { return zverif.SumCmp(vs, []uint64{maxU64}) <= 0 }

func inVals(t core.Tx) (l []uint64) {
	for _, i := range t.Inputs {
		l = append(l, i.Utxo.Value)
	}
	return
}

func outVals(t core.Tx) (l []uint64) {
	for _, o := range t.Outputs {
		l = append(l, o.Value)
	}
	return
}

func newAdmission() *admission {
	d := &admission{p: testParams()}
	d.p.BlockReward = zverif.U64("reward")
	d.p.MaxTxVSize = 20000
	d.v = inv.NewInv(d.p, nil)
	k0, k1 := keyN(0), keyN(1)
	d.a = coinbase(1, zverif.U64("A0"), k0.pkh)
	zverif.Assume(d.a.Outputs[0].Value >= d.p.BlockReward)
	setup(d.v.StoreTx(d.a))
	d.b = pay(k0, utxoOf(d.a, 0), out(zverif.U64("B0"), k0.pkh), out(zverif.U64("B1"), k1.pkh))
	zverif.Assume(zverif.SumCmp(outVals(d.b), inVals(d.b)) < 0)
	setup(d.v.StoreTx(d.b))
	return d
}

// input: an input naming an arbitrary place. who signs and how is chosen among: key 0, key 1, not a key; over
// the content, over other content, arbitrary bytes.
func (d *admission) input(name string, free bool) (core.TxIn, inFacts, int, int) {
	var f inFacts
	i := core.TxIn{Utxo: core.Utxo{Ind: zverif.U64(name + ".ind"), Value: zverif.U64(name + ".value")}}
	n := 2
	if free {
		n = 3
	}
	switch zverif.Choice(name+".tx", n) {
	case 0:
		i.Utxo.TxId = d.a.Hash()
		if i.Utxo.Ind == 0 {
			f.known, f.value, f.originOwner = true, i.Utxo.Value == d.a.Outputs[0].Value, d.a.Outputs[0].PublicKeyHash
		}
	case 1:
		i.Utxo.TxId = d.b.Hash()
		for k, o := range d.b.Outputs {
			if i.Utxo.Ind == uint64(k) {
				f.known, f.value, f.originOwner = true, i.Utxo.Value == o.Value, o.PublicKeyHash
			}
		}
	case 2:
		i.Utxo.TxId = tag(7)
	}
	pub, sig := zverif.Choice(name+".pub", n), 0
	if free {
		sig = zverif.Choice(name+".sig", 5)
	}
	return i, f, pub, sig
}

// offer builds the transaction of the given shape and submits it
func (d *admission) offer(nin, nout int, flag bool) {
	d.tx = core.Tx{IsCoinbase: flag, MinBlock: zverif.U64("minblock"), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	for k := 0; k < nout; k++ {
		d.tx.Outputs = append(d.tx.Outputs, out(zverif.U64("out"+sprint(k)), tag(byte(k+1))))
	}
	free := 0 // the input that is arbitrary; another one is signed by its key
	if nin > 1 {
		free = zverif.Choice("free", nin)
	}
	for k := 0; k < nin; k++ {
		i, f, pub, sig := d.input("in"+sprint(k), k == free)
		signer := keyN(sig % 2)
		i.PublicKey = []byte{1, 2, 3}
		if pub < 2 {
			i.PublicKey = append([]byte{}, keyN(pub).pub...)
		}
		mb, outs := d.tx.MinBlock, append([]core.TxOut{}, d.tx.Outputs...)
		switch sig {
		case 0, 1: // key 0 or key 1 over the content
			if k != free {
				signer = keyN(pub)
			}
			i.Signature = sign(signer, mb, outs)
			f.signed = signer.pkh == core.DHashBytes(i.PublicKey)
		case 2: // over another minimum block
			mb++
			i.Signature = sign(keyN(pub%2), mb, outs)
		case 3: // over other outputs
			outs = append(outs, out(1, tag(9)))
			i.Signature = sign(keyN(pub%2), mb, outs)
		case 4:
			i.Signature = zverif.Bytes("sig"+sprint(k), 4)
		}
		f.owner = f.known && core.DHashBytes(i.PublicKey) == f.originOwner
		d.tx.Inputs = append(d.tx.Inputs, i)
		d.in = append(d.in, f)
	}
	d.err = d.v.StoreTx(d.tx)
}

// wellFormed: the admission rules, stated on their own (true arithmetic)
func (d *admission) wellFormed() bool {
	t := d.tx
	size := uint64(72)
	r := true
	for k, i := range t.Inputs {
		size += 48 + uint64(len(i.PublicKey)+len(i.Signature))
		f := d.in[k]
		r = zverif.And(r, f.known, f.value, f.owner, f.signed)
		for _, j := range t.Inputs[:k] {
			r = zverif.And(r, zverif.Not(zverif.And(zverif.HashEq(i.Utxo.TxId.Data(), j.Utxo.TxId.Data()), i.Utxo.Ind == j.Utxo.Ind)))
		}
	}
	size += 40 * uint64(len(t.Outputs))
	r = zverif.And(r, size <= d.p.MaxTxVSize, fits64(inVals(t)), fits64(outVals(t)))
	if t.IsCoinbase {
		return zverif.And(r, len(t.Inputs) == 0, len(t.Outputs) == 1, len(t.Outputs) == 0 || t.Outputs[0].Value >= d.p.BlockReward)
	}
	return zverif.And(r, zverif.SumCmp(outVals(t), inVals(t)) < 0)
}
