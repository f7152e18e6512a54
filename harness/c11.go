package zharness

import (
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// distinct coinbase transactions of any value, in a fresh inventory
func invWithTxs(p core.Params, n int) (*inv.Inv, []core.HashT, uint64) {
	v := inv.NewInv(p, nil)
	var ids []core.HashT
	size := uint64(0)
	for i := 0; i < n; i++ {
		val := zverif.U64("value")
		zverif.Assume(val >= p.BlockReward)
		t := coinbase(uint64(i+1), val, symHash("pkh"))
		setup(v.StoreTx(t))
		ids = append(ids, t.Hash())
		size += t.VSize()
	}
	return v, ids, size
}

// Building a tree over n transactions, storing its nodes in the order given and reading it back gives the transactions in order, with their summed size.
// bounds: 1..9 transactions (1..17 thorough) of any value and owner
// reach: end
func C11_round_trip() {
	p := testParams()
	p.MaxBlockVSize = 1 << 20
	n := zverif.Int("n", 1, zverif.Tier(9, 17))
	v, ids, size := invWithTxs(p, n)
	give := append([]core.HashT{}, ids...)
	nodes, order := core.MerkleFromTxIds(give)
	ok(len(give) == n, "building a tree changed the length of the list given")
	for i := range ids {
		ok(give[i] == ids[i], "building a tree changed the list given")
	}
	ok(len(order) > 0, "a tree has no nodes")
	for _, id := range order {
		m, has := nodes[id]
		ok(has, "the node order of a tree names a node that is not in the tree")
		ok(m.Hash() == id, "a tree node is filed under another id")
		if !v.HasMerkle(id) {
			noErr(v.StoreMerkle(m), "a node of a built tree is refused when stored in the order given")
		}
	}
	root := order[len(order)-1]
	got := v.GetMerkleTxIds(root)
	ok(len(got) == n, "reading a tree gives another number of transactions")
	for i := range ids {
		ok(got[i] == ids[i], "reading a tree gives other transactions or another order")
	}
	txs := v.GetMerkleTxs(root)
	ok(len(txs) == n, "reading a tree gives another number of transactions")
	for i := range ids {
		ok(txs[i].Hash() == ids[i], "reading a tree gives other transactions or another order")
	}
	ok(v.GetMerkleVSize(root) == size, "the recorded size of a tree is not the sum of its transactions' sizes")
	ok(v.GetEntityVSize(root) == size, "the recorded size of a tree is not the sum of its transactions' sizes")
	// the limit on tree sizes holds for every count the block limit allows
	ok(uint64(len(order)) <= 2*uint64(n)+1, "a tree has more nodes than twice its transactions")
	zverif.Reach("end")
}

// leaves of an entity, the oracle for what a tree contains
func leaves(v map[core.HashT]core.MerkleNode, id core.HashT) []core.HashT {
	m, isNode := v[id]
	if !isNode {
		return []core.HashT{id}
	}
	l := leaves(v, m.LChild)
	if m.RChild != m.LChild {
		l = append(l, leaves(v, m.RChild)...)
	}
	return l
}

// A node is stored exactly when both children are known, different children share no transaction and the content fits the block size; a stored node keeps its children and size, and a refused one leaves no trace.
// bounds: 3 transactions, every forest of up to 3 (4 thorough) further nodes over them or over an unknown id, every size limit
// reach: stored unknown shared big
// cfg: paths=20000 budget=200
func C11_admission() {
	p := testParams()
	p.MaxBlockVSize = zverif.U64("max block vsize")
	v, ents, _ := invWithTxs(p, 3)
	one := core.CoinbaseVSize()
	nodes := map[core.HashT]core.MerkleNode{}
	unknown := tag(9)
	steps := zverif.Tier(3, 4)
	for s := 0; s < steps; s++ {
		pick := func(n string) core.HashT {
			i := zverif.Choice(n, len(ents)+1)
			if i == len(ents) {
				return unknown
			}
			return ents[i]
		}
		m := core.MerkleNode{LChild: pick("l"), RChild: pick("r")}
		id := m.Hash()
		if _, dup := nodes[id]; dup {
			ok(v.StoreMerkle(m) != nil, "a known merkle node is stored again without an error")
			return
		}
		err := v.StoreMerkle(m)
		if m.LChild == unknown || m.RChild == unknown {
			ok(err != nil, "a merkle node with an unknown child is stored")
			ok(!v.HasMerkle(id), "a refused merkle node is known afterwards")
			zverif.Reach("unknown")
			return
		}
		ls := leaves(nodes, m.LChild)
		shared := false
		size := uint64(len(ls))
		if m.RChild != m.LChild {
			rs := leaves(nodes, m.RChild)
			size += uint64(len(rs))
			for _, a := range ls {
				for _, b := range rs {
					if a == b {
						shared = true
					}
				}
			}
		}
		if shared {
			ok(err != nil, "a merkle node whose children share a transaction is stored")
			ok(!v.HasMerkle(id), "a refused merkle node is known afterwards")
			zverif.Reach("shared")
			return
		}
		if size*one > p.MaxBlockVSize {
			ok(err != nil, "a merkle node bigger than the block size limit is stored")
			ok(!v.HasMerkle(id), "a refused merkle node is known afterwards")
			zverif.Reach("big")
			return
		}
		noErr(err, "a valid merkle node is refused")
		ok(v.HasMerkle(id), "a stored merkle node is not known")
		ok(v.HasEntity(id), "a stored merkle node is not known")
		ok(v.GetMerkle(id) == m, "a stored merkle node has other children")
		ok(v.GetMerkleVSize(id) == size*one, "a stored merkle node has the wrong size")
		nodes[id] = m
		ents = append(ents, id)
		got := v.GetMerkleTxIds(id)
		ok(uint64(len(got)) == size, "a stored merkle node contains another number of transactions")
		for _, a := range append(leaves(nodes, m.LChild), leaves(nodes, m.RChild)...) {
			in := false
			for _, g := range got {
				in = in || g == a
			}
			ok(in, "a transaction below a stored merkle node is missing when reading it")
		}
		zverif.Reach("stored")
	}
}

// Size bounds derived from the parameters: the largest count of transactions is at least what fits, the smallest sizes are the ones of real objects.
// bounds: every maximum block size below 2^20
// reach: end
func C11_limits() {
	p := testParams()
	p.MaxBlockVSize = uint64(zverif.U32("max block vsize") & 0xfffff)
	zverif.Assume(zverif.And(p.MaxBlockVSize >= core.CoinbaseVSize(), p.MaxBlockVSize < 1<<20))
	ok(core.CoinbaseVSize() == coinbase(1, 1, tag(1)).VSize(), "the size of a coinbase is not the size of a coinbase")
	k := keyN(0)
	t := core.Tx{Inputs: []core.TxIn{{Utxo: core.Utxo{TxId: tag(1), Value: 5}, PublicKey: k.pub}}}
	ok(core.MinNonCoinbaseVSize() == t.VSize(), "the minimum size of a payment is not the size of the smallest payment")
	n := core.BlockMaxTxs(p)
	// n transactions or more of minimum size cannot be exceeded by what fits
	ok(zverif.Implies(n < 1<<33, n*core.MinNonCoinbaseVSize() >= p.MaxBlockVSize-core.CoinbaseVSize()), "more transactions fit a block than the count limit allows")
	zverif.Reach("end")
}
