package zharness

import (
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Every input of an admitted transaction is its owner's, for its true value, and signed by that key.
// bounds: 1..2 inputs naming any place with any index and value, either of them with the public key of either owner or none and a signature by either key, over this or other content, or of arbitrary bytes; 0..1 outputs (2 thorough)
// assumes: two known transactions with outputs of two owners; ideal signatures
// reach: admitted refused
// cfg: paths=40000 budget=400
func C03_owner() {
	d := newAdmission()
	d.offer(zverif.Int("nin", 1, 2), zverif.Int("nout", 0, zverif.Tier(1, 2)), false)
	if d.err != nil {
		zverif.Reach("refused")
		return
	}
	for _, f := range d.in {
		ok(f.known, "an input that names no known output is admitted")
		ok(f.owner, "an input with a key that is not the owner's is admitted")
		ok(f.value, "an input with a value that is not the output's is admitted")
		ok(f.signed, "an input without a signature of its key over this content is admitted")
	}
	zverif.Reach("admitted")
}

// Content altered after signing is refused.
// bounds: one signed transaction (1..2 inputs, 1..2 outputs, arbitrary amounts); altered in any one of: minimum block, an output's amount or owner, an output added or dropped or swapped, the coinbase mark, an input's place, an input added or dropped, the other input's key
// reach: original refused
// cfg: paths=20000 budget=300
func C03_altered() {
	d := newAdmission()
	k0, k1 := keyN(0), keyN(1)
	ins := []core.Utxo{utxoOf(d.b, 0)}
	if zverif.Bool("two inputs") {
		ins = append(ins, utxoOf(d.a, 0))
	}
	outs := []core.TxOut{out(zverif.U64("o0"), k1.pkh)}
	if zverif.Bool("two outputs") {
		outs = append(outs, out(zverif.U64("o1"), k0.pkh))
	}
	tx := payN(k0, zverif.U64("minblock"), ins, outs...)
	what := zverif.Choice("altered", 13)
	msg := ""
	switch what {
	case 0: // not altered
		zverif.Assume(zverif.And(fits64(inVals(tx)), zverif.SumCmp(outVals(tx), inVals(tx)) < 0))
		ok(d.v.StoreTx(tx) == nil, "a correctly signed transaction is refused")
		zverif.Reach("original")
		return
	case 1:
		m := zverif.U64("other minblock")
		zverif.Assume(m != tx.MinBlock)
		tx.MinBlock = m
		msg = "a transaction whose minimum block was altered after signing is admitted"
	case 2:
		i := zverif.Choice("which", len(outs))
		v := zverif.U64("other amount")
		zverif.Assume(v != tx.Outputs[i].Value)
		tx.Outputs[i].Value = v
		msg = "a transaction with an amount altered after signing is admitted"
	case 3:
		i := zverif.Choice("which", len(outs))
		h := symHash("other owner")
		zverif.Assume(h != tx.Outputs[i].PublicKeyHash)
		tx.Outputs[i].PublicKeyHash = h
		msg = "a transaction with a recipient altered after signing is admitted"
	case 4:
		tx.Outputs = append(tx.Outputs, out(zverif.U64("extra"), symHash("extra owner")))
		msg = "a transaction with an output added after signing is admitted"
	case 5:
		tx.Outputs = tx.Outputs[:len(outs)-1]
		msg = "a transaction with an output dropped after signing is admitted"
	case 6:
		zverif.Assume(len(outs) == 2)
		tx.Outputs[0], tx.Outputs[1] = tx.Outputs[1], tx.Outputs[0]
		msg = "a transaction with outputs swapped after signing is admitted"
	case 7:
		tx.IsCoinbase = true
		msg = "a payment marked as a coinbase after signing is admitted"
	case 8: // the other input lends its signature to an output of another owner
		u := utxoOf(d.b, 1)
		tx.Inputs = append(tx.Inputs, core.TxIn{Utxo: u, PublicKey: k1.pub, Signature: tx.Inputs[0].Signature})
		msg = "an input is admitted on another key's signature"
	case 9: // the signature of the owner, the key of another
		u := utxoOf(d.b, 1)
		tx.Inputs = append(tx.Inputs, core.TxIn{Utxo: u, PublicKey: k0.pub, Signature: tx.Inputs[0].Signature})
		msg = "an input is admitted with a key that is not the owner's"
	case 10: // input replaced by another output of the same owner
		zverif.Assume(len(ins) == 1)
		tx.Inputs[0].Utxo = utxoOf(d.a, 0)
		msg = "a transaction with an input replaced after signing is admitted"
	case 11:
		zverif.Assume(len(ins) == 2)
		tx.Inputs = tx.Inputs[:1]
		msg = "a transaction with an input dropped after signing is admitted"
	case 12:
		zverif.Assume(len(ins) == 1)
		i := tx.Inputs[0]
		i.Utxo = utxoOf(d.a, 0)
		tx.Inputs = append(tx.Inputs, i)
		msg = "a transaction with an input added after signing is admitted"
	}
	ok(d.v.StoreTx(tx) != nil, msg)
	zverif.Reach("refused")
}
