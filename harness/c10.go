package zharness

import (
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

func symIn(n string, pubLen, sigLen int) core.TxIn {
	return core.TxIn{
		Utxo:      core.Utxo{TxId: symHash(n + ".txid"), Ind: zverif.U64(n + ".ind"), Value: zverif.U64(n + ".value")},
		PublicKey: zverif.Bytes(n+".pub", pubLen),
		Signature: zverif.Bytes(n+".sig", sigLen),
	}
}

func symOut(n string) core.TxOut {
	return core.TxOut{Value: zverif.U64(n + ".value"), PublicKeyHash: symHash(n + ".pkh")}
}

func symTx(n string, ins, outs, pubLen, sigLen int) core.Tx {
	t := core.Tx{IsCoinbase: zverif.Bool(n + ".coinbase"), MinBlock: zverif.U64(n + ".minblock"), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	for i := 0; i < ins; i++ {
		t.Inputs = append(t.Inputs, symIn(n+".in"+sprint(i), pubLen, sigLen))
	}
	for i := 0; i < outs; i++ {
		t.Outputs = append(t.Outputs, symOut(n+".out"+sprint(i)))
	}
	return t
}

func symBlock(n string) core.Block {
	return core.Block{PrevBlockId: symHash(n + ".prev"), MerkleRoot: symHash(n + ".root"), Target: symHash(n + ".target"),
		Noise: symHash(n + ".noise"), Nonce: zverif.U64(n + ".nonce"), MinedTime: zverif.U64(n + ".time")}
}

func sameIn(a, b core.TxIn) bool {
	return zverif.And(a.Utxo == b.Utxo, eqBytes(a.PublicKey, b.PublicKey), eqBytes(a.Signature, b.Signature))
}

func sameOuts(a, b []core.TxOut) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = zverif.And(r, a[i] == b[i])
	}
	return r
}

func sameIns(a, b []core.TxIn) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = zverif.And(r, sameIn(a[i], b[i]))
	}
	return r
}

func sameTx(a, b core.Tx) bool {
	return zverif.And(a.IsCoinbase == b.IsCoinbase, a.MinBlock == b.MinBlock, sameIns(a.Inputs, b.Inputs), sameOuts(a.Outputs, b.Outputs))
}

// Transactions with the same id are the same in every field; the same transaction always has the same id.
// bounds: every pair of transactions with 0..2 inputs (0..3 thorough) and 0..2 outputs each, all field values, keys and signatures of 2 bytes
// reach: same different
// cfg: paths=2000
func C10_tx() {
	k := zverif.Tier(2, 3)
	a := symTx("a", zverif.Int("ia", 0, k), zverif.Int("oa", 0, 2), 2, 2)
	b := symTx("b", zverif.Int("ib", 0, k), zverif.Int("ob", 0, 2), 2, 2)
	if a.Hash() == b.Hash() {
		ok(len(a.Inputs) == len(b.Inputs), "two transactions with the same id differ in the number of inputs")
		ok(len(a.Outputs) == len(b.Outputs), "two transactions with the same id differ in the number of outputs")
		ok(a.IsCoinbase == b.IsCoinbase, "two transactions with the same id differ in the coinbase flag")
		ok(a.MinBlock == b.MinBlock, "two transactions with the same id differ in the minimum block")
		ok(sameIns(a.Inputs, b.Inputs), "two transactions with the same id differ in an input")
		ok(sameOuts(a.Outputs, b.Outputs), "two transactions with the same id differ in an output")
		zverif.Reach("same")
	} else {
		ok(zverif.Not(sameTx(a, b)), "equal transactions have different ids")
		zverif.Reach("different")
	}
}

// The same with keys and signatures of different lengths: no boundary between the two can move.
// bounds: one input each, keys of 0..2 bytes and signatures of 0..2 bytes, all field values
// reach: same
// cfg: paths=2000
func C10_tx_lengths() {
	a := symTx("a", 1, 1, zverif.Int("pa", 0, 2), zverif.Int("sa", 0, 2))
	b := symTx("b", 1, 1, zverif.Int("pb", 0, 2), zverif.Int("sb", 0, 2))
	if a.Hash() == b.Hash() {
		ok(eqBytes(a.Inputs[0].PublicKey, b.Inputs[0].PublicKey), "two transactions with the same id differ in a public key")
		ok(eqBytes(a.Inputs[0].Signature, b.Inputs[0].Signature), "two transactions with the same id differ in a signature")
		ok(sameTx(a, b), "two transactions with the same id differ")
		zverif.Reach("same")
	} else {
		ok(zverif.Not(sameTx(a, b)), "equal transactions have different ids")
	}
}

// Merkle nodes with the same id have the same children in the same order.
// bounds: every pair of merkle nodes
// reach: same
func C10_merkle() {
	a := core.MerkleNode{LChild: symHash("al"), RChild: symHash("ar")}
	b := core.MerkleNode{LChild: symHash("bl"), RChild: symHash("br")}
	if a.Hash() == b.Hash() {
		ok(a == b, "two merkle nodes with the same id have different children")
		zverif.Reach("same")
	} else {
		ok(a != b, "equal merkle nodes have different ids")
	}
}

// Blocks with the same id are the same in every field.
// bounds: every pair of blocks
// reach: same
func C10_block() {
	a, b := symBlock("a"), symBlock("b")
	if a.Hash() == b.Hash() {
		ok(a.PrevBlockId == b.PrevBlockId, "two blocks with the same id differ in the parent")
		ok(a.MerkleRoot == b.MerkleRoot, "two blocks with the same id differ in the transaction tree")
		ok(a.Target == b.Target, "two blocks with the same id differ in the target")
		ok(a.Noise == b.Noise, "two blocks with the same id differ in the noise")
		ok(a.Nonce == b.Nonce, "two blocks with the same id differ in the nonce")
		zverif.Reach("same")
		ok(a.MinedTime == b.MinedTime, "two blocks with the same id differ in the mined time")
	} else {
		ok(a != b, "equal blocks have different ids")
	}
}

// Parts of transactions with the same id are the same: outputs, unspent outputs, inputs.
// bounds: every pair, keys and signatures of 2 bytes
// reach: end
func C10_parts() {
	o1, o2 := symOut("o1"), symOut("o2")
	if o1.Hash() == o2.Hash() {
		ok(o1 == o2, "two outputs with the same id differ")
	}
	i1, i2 := symIn("i1", 2, 2), symIn("i2", 2, 2)
	if i1.Utxo.Hash() == i2.Utxo.Hash() {
		ok(i1.Utxo == i2.Utxo, "two unspent outputs with the same id differ")
	}
	if i1.Hash() == i2.Hash() {
		ok(sameIn(i1, i2), "two inputs with the same id differ")
	}
	zverif.Reach("end")
}

// An id names one kind of object: no transaction shares an id with a merkle node or a block.
// bounds: transactions with 0..2 inputs and outputs, every merkle node and block
// reach: end
func C10_kinds() {
	t := symTx("t", zverif.Int("i", 0, 2), zverif.Int("o", 0, 2), 2, 2).Hash()
	m := core.MerkleNode{LChild: symHash("l"), RChild: symHash("r")}.Hash()
	b := symBlock("b").Hash()
	ok(t != m, "a transaction and a merkle node share an id")
	ok(t != b, "a transaction and a block share an id")
	ok(b != m, "a block and a merkle node share an id")
	ok(zverif.And(zverif.Not(t.EqZero()), zverif.Not(m.EqZero()), zverif.Not(b.EqZero())), "an id is the zero id")
	zverif.Reach("end")
}

// The content a signature covers determines the minimum block and every output.
// bounds: 0..2 outputs (0..3 thorough) on each side, all values
// reach: same
func C10_presig() {
	k := zverif.Tier(2, 3)
	mk := func(n string) (uint64, []core.TxOut) {
		o := []core.TxOut{}
		for i := zverif.Int("n"+n, 0, k); i > 0; i-- {
			o = append(o, symOut(n))
		}
		return zverif.U64("mb" + n), o
	}
	ma, oa := mk("a")
	mb, ob := mk("b")
	if core.TxHashPreSig(ma, oa) == core.TxHashPreSig(mb, ob) {
		ok(ma == mb, "signed contents that are equal differ in the minimum block")
		ok(sameOuts(oa, ob), "signed contents that are equal differ in an output")
		zverif.Reach("same")
	} else {
		ok(zverif.Not(zverif.And(ma == mb, sameOuts(oa, ob))), "the same content is signed in two ways")
	}
}

// Hash builders: bytes, numbers, flags, lists and mixtures hash alike only when equal, and building an id does not alter the object.
// bounds: byte strings of 0..3 bytes, lists of 0..3 hashes, all values
// reach: end
// cfg: paths=2000
func C10_builders() {
	a, b := zverif.Bytes("a", zverif.Int("la", 0, 3)), zverif.Bytes("b", zverif.Int("lb", 0, 3))
	ok((core.DHashBytes(a) == core.DHashBytes(b)) == eqBytes(a, b), "byte strings hash alike exactly when equal: broken")
	x, y := zverif.U64("x"), zverif.U64("y")
	ok((core.DHashUint64(x) == core.DHashUint64(y)) == (x == y), "numbers hash alike exactly when equal: broken")
	ok(core.DHashBool(true) != core.DHashBool(false), "both flags hash alike")
	mk := func(n string) []core.HashT {
		l := []core.HashT{}
		for i := zverif.Int("n"+n, 0, 3); i > 0; i-- {
			l = append(l, symHash(n))
		}
		return l
	}
	p, q := mk("p"), mk("q")
	same := len(p) == len(q)
	for i := 0; same && i < len(p); i++ {
		if p[i] != q[i] {
			same = false
		}
	}
	ok((core.DHashHashes(p) == core.DHashHashes(q)) == same, "lists of hashes hash alike exactly when equal: broken")
	ok((core.DHashList(p) == core.DHashList(q)) == same, "lists hash alike exactly when equal: broken")
	zverif.Reach("end")
}
