seed("lt-last-byte", "C09",
 [("pkg/core/hasht.go", "	for i := 0; i < 32; i++ {\n		if h.data[i] > other.data[i] {", "	for i := 0; i < 31; i++ {\n		if h.data[i] > other.data[i] {")],
 """
package main

// Hashes that differ in the last byte are ordered.
func main() {
	a := testParams().MaxTarget
	b := a.Data()
	b[31]--
	check(fromData(b).Lt(a), "a smaller hash is not below a larger one")
}
""".replace("package main\n", 'package main\n\nimport "github.com/levilutz/basiccoin/pkg/core"\n\nfunc fromData(b [32]byte) core.HashT { return core.NewHashTFromBytes(b[:]) }\n'),
 "two hashes equal in all but the last byte",
 "such hashes count as equal: total work one unit higher is not recognised as higher")

seed("input-hash-concat", "C10",
 [("pkg/core/transaction.go", """		txi.Utxo,
		txi.PublicKey,
		txi.Signature,
""", """		txi.Utxo,
		append(append([]byte{}, txi.PublicKey...), txi.Signature...),
""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// Inputs that differ in key and signature have different ids.
func main() {
	a := core.Tx{Inputs: []core.TxIn{{PublicKey: []byte{1, 2}, Signature: []byte{3}}}, Outputs: []core.TxOut{}}
	b := core.Tx{Inputs: []core.TxIn{{PublicKey: []byte{1}, Signature: []byte{2, 3}}}, Outputs: []core.TxOut{}}
	check(a.Hash() != b.Hash(), "different transactions share an id")
}
""",
 "two inputs whose key and signature divide the same bytes differently",
 "an id no longer fixes where the key ends and the signature starts")

seed("spent-later-input", "C02",
 [("internal/chain/state.go", """	for _, utxo := range tx.GetConsumedUtxos() {
		if !s.utxos.Includes(utxo) {
			return fmt.Errorf("tx input not available %s[%d]", utxo.TxId, utxo.Ind)
		}
	}
	return nil""", """	available := len(tx.Inputs) == 0
	for _, utxo := range tx.GetConsumedUtxos() {
		available = available || s.utxos.Includes(utxo)
	}
	if !available {
		return fmt.Errorf("tx inputs not available")
	}
	return nil"""),
  ("internal/chain/state.go", """			if !s.utxos.Remove(utxo) {
				return fmt.Errorf("tx input not available %s[%d]", utxo.TxId, utxo.Ind)
			}
			txo""", """			if !s.utxos.Remove(utxo) {
				// Already debited
				continue
			}
			txo""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/core"

// A block may not spend an output that an earlier block spent.
func main() {
	p := testParams()
	a, b := keyN(0), keyN(1)
	n := newNode(p, false, nil)
	b1 := next(p, nil, a.pkh)
	b2 := next(p, b1, a.pkh)
	u1, u2 := utxoOf(b1.txs[0], 0), utxoOf(b2.txs[0], 0)
	b3 := next(p, b2, b.pkh, pay(a, u1, out(900, b.pkh)))
	n.adopt(b3)
	b4 := rawBlock(b3, p.OriginalTarget, timeAt(4), []core.Tx{coinbase(4, p.BlockReward+100, b.pkh), payN(a, 0, []core.Utxo{u2, u1}, out(1900, b.pkh))})
	n.offer(b4.id, b4)
	check(n.head() == b3.id, "a spent output was spent again")
}
""",
 "a transaction with one unspent and one spent input (two sites cooperate)",
 "an output is spent twice if another input of the second transaction is unspent")

seed("exact-size", "C07",
 [("pkg/core/verify.go", "	if tx.VSize() > v.params.MaxTxVSize {", "	if tx.VSize() >= v.params.MaxTxVSize {")],
 """
package main

// A transaction of exactly the size limit is admitted.
func main() {
	p := testParams()
	a, b := keyN(0), keyN(1)
	b1 := next(p, nil, a.pkh)
	t := pay(a, utxoOf(b1.txs[0], 0), out(900, b.pkh))
	p.MaxTxVSize = t.VSize()
	n := newNode(p, false, nil)
	n.adopt(b1)
	check(n.offerTx(t) == nil, "a transaction of exactly the size limit is refused")
}
""",
 "a transaction of exactly the size limit",
 "well formed transactions of exactly the maximum size are refused")

seed("flatten-shares", "C25",
 [("pkg/util/util.go", """	out := make([]K, 0)
	for _, inL := range in {
		out = append(out, inL...)
	}
	return out""", """	if len(in) == 0 {
		return make([]K, 0)
	}
	// Start from the first list to save a copy
	out := in[0]
	for _, inL := range in[1:] {
		out = append(out, inL...)
	}
	return out""")],
 """
package main

import "github.com/levilutz/basiccoin/pkg/util"

// Flattening leaves its inputs alone.
func main() {
	all := []int{1, 2, 3}
	util.FlattenLists([][]int{all[:1], {9}})
	check(all[1] == 2, "flattening overwrote the list it was given")
}
""",
 "a first list that is a part of a longer one",
 "flattening lists overwrites the storage of the first")
