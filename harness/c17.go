package zharness

import (
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/disksyncmap"
)

// word: a stored value whose text may be anything
type word string

func (w word) String() string { return string(w) }

func parseWord(s string) (word, error) { return word(s), nil }

// A crash while storing leaves every key of a saved map either absent or as stored.
// bounds: three stores under any keys of any 64-digit texts, the crash at any file operation of any of them or none (a write leaves nothing, half or all but the end, or all), a first store before
// assumes: stores of one key are of one value, as content-addressed objects are
// reach: crashed whole
func C17_map() {
	dir := "save"
	open := func() *disksyncmap.DiskSyncMap[core.HashT, word] {
		return disksyncmap.NewDiskSyncMap[core.HashT, word](dir, parseWord)
	}
	keys := []core.HashT{symHash("k0"), symHash("k1"), symHash("k2")}
	vals := make([]word, 3)
	for i := range vals {
		vals[i] = word(symHash("v" + sprint(i)).String())
		for j := 0; j < i; j++ {
			zverif.Assume(keys[j] != keys[i])
		}
	}
	m := open()
	m.Store(keys[0], vals[0])
	stored := 1
	crashed := zverif.CrashDuring(func() {
		m = open()
		for ; stored < 3; stored++ {
			m.Store(keys[stored], vals[stored])
		}
	})
	m = open()
	for i, k := range keys {
		has := m.Has(k)
		ok(has || i >= stored, "an object stored before a crash is gone")
		ok(!has || i <= stored, "an object appears that was never stored")
		if has {
			ok(m.Get(k) == vals[i], "an object reads back wrong after a crash")
		}
	}
	other := symHash("other")
	zverif.Assume(zverif.And(other != keys[0], other != keys[1], other != keys[2]))
	ok(!m.Has(other), "an object is found under a key never stored")
	// storing goes on
	for i, k := range keys {
		if !m.Has(k) {
			m.Store(k, vals[i])
		}
	}
	m = open()
	for i, k := range keys {
		ok(m.Has(k), "an object stored after a crash is gone")
		ok(m.Get(k) == vals[i], "an object stored after a crash reads back wrong")
	}
	if crashed {
		zverif.Reach("crashed")
	} else {
		zverif.Reach("whole")
	}
}

func sameRecords(v, w *inv.Inv, b *blk, must bool, when string) {
	for _, t := range b.txs {
		id := t.Hash()
		has := v.HasTx(id)
		ok(has || !must, when+": a saved transaction is gone")
		if has {
			ok(txEq(v.GetTx(id), t), when+": a transaction reads back wrong")
			ok(v.GetTxVSize(id) == t.VSize(), when+": a transaction's size reads back wrong")
		}
	}
	for _, m := range b.ms {
		id := m.Hash()
		has := v.HasMerkle(id)
		ok(has || !must, when+": a saved tree node is gone")
		if has {
			ok(v.GetMerkle(id) == m, when+": a tree node reads back wrong")
			ok(v.GetMerkleVSize(id) == w.GetMerkleVSize(id), when+": a tree node's size reads back wrong")
		}
	}
	has := v.HasBlock(b.id)
	ok(has || !must, when+": a saved block is gone")
	if has {
		ok(v.GetBlock(b.id) == b.b, when+": a block reads back wrong")
		ok(v.GetBlockHeight(b.id) == b.height, when+": a block's height reads back wrong")
		ok(v.GetBlockTotalWork(b.id) == w.GetBlockTotalWork(b.id), when+": a block's work reads back wrong")
		ok(v.HasMerkle(b.b.MerkleRoot), when+": a saved block lacks its tree")
		for _, t := range b.txs {
			ok(v.HasTx(t.Hash()), when+": a saved block lacks a transaction")
		}
	}
}

// A crash while a block is taken in or adopted leaves the saved objects and the saved head intact, and the reopened node can go on.
// bounds: trunk of 2 blocks, then a block with one of five contents, every amount; the crash at any file operation (a write leaves nothing, half, all but the end or all); then a restart, the same block again and one more
// assumes: ideal hash and signature
// reach: crashed whole old new
// cfg: paths=20000 budget=300
func C17_node() {
	dir := "save"
	f := newForks(testParams(), false, &dir)
	f.start()
	b := next(f.p, f.t2, tag(1), f.menu(zverif.Choice("content", 5))...)
	zverif.Assume(applicable(b))
	ref := inv.NewInv(f.p, nil)
	store(ref, b)
	crashed := zverif.CrashDuring(func() { f.give(b.id, b) })
	d := dir + "/inv"
	sameRecords(inv.NewInv(f.p, &d), ref, f.t1, true, "after a crash")
	sameRecords(inv.NewInv(f.p, &d), ref, f.t2, true, "after a crash")
	sameRecords(inv.NewInv(f.p, &d), ref, b, !crashed, "after a crash")
	// restart
	f.n = newNode(f.p, false, &dir)
	h, any := f.n.lastHead()
	ok(any, "a restarted node has no head")
	ok(h == f.t2.id || h == b.id, "a restarted node has another head than the previous or the new one")
	ok(crashed || h == b.id, "a restarted node lost its head")
	// nothing is pending after a restart, whatever was before
	f.known = nil
	if h == b.id {
		f.check(b, "restarted on the new head")
		zverif.Reach("new")
	} else {
		f.check(f.t2, "restarted on the old head")
		f.give(b.id, b)
		h, any = f.n.lastHead()
		ok(any && h == b.id, "a block is refused after a crash")
		zverif.Reach("old")
	}
	f.known = nil
	c := next(f.p, b, tag(2))
	f.give(c.id, c)
	h, any = f.n.lastHead()
	ok(any && h == c.id, "the next block is refused after a crash")
	f.check(c, "after going on")
	if crashed {
		zverif.Reach("crashed")
	} else {
		zverif.Reach("whole")
	}
}
