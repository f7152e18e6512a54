package zharness

import (
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// forks: a node on a trunk of two blocks (coinbases to key 0) and a few transactions with arbitrary amounts:
// X spends the first coinbase into two outputs, Y spends X's first output, Z spends the first coinbase too,
// W spends the second coinbase, V spends X's second output and W's only one.
type forks struct {
	p             core.Params
	n             *node
	k0, k1        key
	t1, t2        *blk
	x, y, z, w, v core.Tx
	pkhs          []core.HashT
	known         []core.Tx // every transaction the node was given
}

func newForks(p core.Params, miners bool, dir *string) *forks {
	f := &forks{p: p, k0: keyN(0), k1: keyN(1)}
	f.t1 = next(p, nil, f.k0.pkh)
	f.t2 = next(p, f.t1, f.k0.pkh)
	a, b := zverif.U64("X0"), zverif.U64("X1")
	zverif.Assume(a < 900 && b < 900 && a+b < 1000 && a > 0 && b > 0)
	c := zverif.U64("Y0")
	zverif.Assume(c < a)
	d := zverif.U64("W0")
	zverif.Assume(d < 1000)
	f.x = pay(f.k0, utxoOf(f.t1.txs[0], 0), out(a, f.k1.pkh), out(b, f.k0.pkh))
	f.y = pay(f.k1, utxoOf(f.x, 0), out(c, f.k0.pkh))
	f.z = pay(f.k0, utxoOf(f.t1.txs[0], 0), out(400, f.k1.pkh))
	f.w = pay(f.k0, utxoOf(f.t2.txs[0], 0), out(d, f.k0.pkh))
	f.v = payN(f.k0, 0, []core.Utxo{utxoOf(f.x, 1), utxoOf(f.w, 0)}, out(0, f.k1.pkh))
	f.pkhs = []core.HashT{f.k0.pkh, f.k1.pkh, tag(1), tag(2), tag(3)}
	f.n = newNode(p, miners, dir)
	return f
}

func (f *forks) note(ts ...core.Tx) {
	for _, t := range ts {
		dup := false
		for _, k := range f.known {
			if k.Hash() == t.Hash() {
				dup = true
			}
		}
		if !dup {
			f.known = append(f.known, t)
		}
	}
}

// give offers blocks to the node
func (f *forks) give(head core.HashT, bs ...*blk) {
	for _, b := range bs {
		f.note(b.txs...)
	}
	f.n.offer(head, bs...)
}

func (f *forks) start() {
	f.give(f.t2.id, f.t1, f.t2)
	h, any := f.n.lastHead()
	ok(any && h == f.t2.id, "a valid first chain is not adopted")
}

// menu of block contents
func (f *forks) menu(i int) []core.Tx {
	switch i {
	case 0:
		return nil
	case 1:
		return []core.Tx{f.x}
	case 2:
		return []core.Tx{f.x, f.y}
	case 3:
		return []core.Tx{f.z}
	case 4:
		return []core.Tx{f.w}
	case 5:
		return []core.Tx{f.y}
	case 6:
		return []core.Tx{f.w, f.x, f.v}
	case 7: // spends before it exists
		return []core.Tx{f.y, f.x}
	case 8: // two transactions spend the same output
		return []core.Tx{f.x, f.z}
	}
	return nil
}

// applicable: every input of the path's last block is unspent at that point, nothing is included twice or too early
func applicable(head *blk) bool {
	var l []coin
	var seen []core.HashT
	for _, b := range head.path() {
		for _, t := range b.txs {
			id := t.Hash()
			for _, s := range seen {
				if s == id {
					return false
				}
			}
			seen = append(seen, id)
			if b.height < t.MinBlock {
				return false
			}
			for _, i := range t.Inputs {
				found := false
				for _, c := range l {
					if c.u == i.Utxo {
						found = true
					}
				}
				if !found {
					return false
				}
				l = removeCoin(l, i.Utxo)
			}
			for k, o := range t.Outputs {
				l = append(l, coin{utxoOf(t, k), o.PublicKeyHash})
			}
		}
	}
	return true
}

// pending: everything the node was given that is not in the chain ending in head
func (f *forks) pending(head *blk) (l []core.Tx) {
	for _, t := range f.known {
		if !head.has(t.Hash()) {
			l = append(l, t)
		}
	}
	return
}

func (f *forks) check(head *blk, when string) {
	checkLedger(f.n, head, f.pending(head), when, f.pkhs...)
}
