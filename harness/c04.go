package zharness

import (
	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

func pow2m1(n int) core.HashT { // 2^n - 1
	var b [32]byte
	for i := 0; i < n; i++ {
		b[31-i/8] |= 1 << (i % 8)
	}
	return core.NewHashTFromBytes(b[:])
}

// with transactions, but another target, coinbase surplus or time
func nextWith(p core.Params, prev *blk, target core.HashT, extra, time uint64, pkh core.HashT, txs ...core.Tx) *blk {
	h := prev.height + 1
	all := append([]core.Tx{coinbase(h, p.BlockReward+feesOf(txs)+extra, pkh)}, txs...)
	return rawBlock(prev, target, time, all)
}

// A candidate becomes the head exactly when it is known, can be applied and has strictly more work; otherwise
// nothing changes, and the same branch offered whole and unspoilt is judged afresh.
// bounds: trunk of 3 blocks; old branch of one block (3 contents), new branch of 1..2 blocks (12 contents each; fewer in some combinations), each branch with one of three targets (work 1, 2 or 4 per block); the new branch whole or spoilt in one of 9 ways (coinbase too high, transaction missing, unknown head, block missing, bad signature, time too early, tree missing, bad target, block given twice); every amount
// assumes: ideal hash and signature; a difficulty period starts with the branches
// reach: adopted refused recovered
// cfg: paths=40000 budget=800
func C04_choose() {
	p := testParams()
	p.DifficultyPeriod = 4
	p.MaxTarget, p.OriginalTarget = pow2m1(252), pow2m1(251)
	f := newForks(p, false, nil)
	f.start()
	trunk := next(f.p, f.t2, f.k0.pkh)
	f.give(trunk.id, trunk)
	f.n.lastHead()
	bad := zverif.Choice("spoilt", 10)
	nb := zverif.Int("blocks", 1, 2)
	// a spoilt offer is combined with fewer contents and works
	menu, works, olds := fullMenu, 3, 3
	if bad > 0 {
		menu, works, olds = zverif.Tier(3, 6), zverif.Tier(2, 3), zverif.Tier(2, 3)
	}
	wOld, wNew := zverif.Choice("old work", works), zverif.Choice("new work", works)
	old := nextWith(p, trunk, pow2m1(252-wOld), 0, timeAt(4), tag(1), f.menu([]int{0, 1, 4}[zverif.Choice("old", olds)])...)
	f.give(old.id, old)
	h, any := f.n.lastHead()
	ok(any && h == old.id, "a valid block is not adopted")

	var bs []*blk
	prev := trunk
	for i := 0; i < nb; i++ {
		m := menu
		if nb == 2 && wOld > 0 {
			m = zverif.Tier(3, 6)
		} else if nb == 2 && i == 0 {
			m = zverif.Tier(6, fullMenu)
		}
		c := zverif.Choice("new"+sprint(i), m)
		prev = nextWith(p, prev, pow2m1(252-wNew), 0, timeAt(prev.height+1), tag(2), f.anyMenu(c)...)
		bs = append(bs, prev)
	}
	top := bs[nb-1]
	good := applicable(top) && nb<<wNew > 1<<wOld

	var e bus.CandidateHeadEvent
	put := func(l ...*blk) {
		for _, b := range l {
			e.Blocks = append(e.Blocks, b.b)
			e.Merkles = append(e.Merkles, b.ms...)
			e.Txs = append(e.Txs, b.txs...)
		}
	}
	put(bs[:nb-1]...)
	e.Head = top.id
	adoptable := good && bad == 0
	switch bad {
	case 0:
		put(top)
	case 1: // the coinbase pays too much
		t := nextWith(p, top.prev, top.b.Target, 1, timeAt(top.height), tag(2), top.txs[1:]...)
		put(t)
		e.Head = t.id
	case 2: // a transaction is missing
		put(top)
		e.Txs = e.Txs[:len(e.Txs)-1]
		for _, t := range f.known {
			zverif.Assume(t.Hash() != top.txs[len(top.txs)-1].Hash())
		}
		for _, b := range bs[:nb-1] {
			zverif.Assume(!b.has(top.txs[len(top.txs)-1].Hash()))
		}
	case 3: // the head is another one
		put(top)
		e.Head = tag(77)
	case 4: // a block below is missing
		zverif.Assume(nb == 2)
		e = bus.CandidateHeadEvent{Head: top.id}
		put(top)
		e.Txs = append(append([]core.Tx{}, bs[0].txs...), e.Txs...)
	case 5: // a transaction with a bad signature
		zverif.Assume(len(top.txs) > 1)
		put(top)
		t := top.txs[1]
		t.Inputs = append([]core.TxIn{}, t.Inputs...)
		t.Inputs[0].Signature = append([]byte{1}, t.Inputs[0].Signature...)
		txs := append([]core.Tx{}, top.txs...)
		txs[1] = t
		w := rawBlock(top.prev, top.b.Target, timeAt(top.height), txs)
		e.Head, e.Blocks[nb-1], e.Merkles, e.Txs = w.id, w.b, nil, nil
		for _, b := range append(append([]*blk{}, bs[:nb-1]...), w) {
			e.Merkles, e.Txs = append(e.Merkles, b.ms...), append(e.Txs, b.txs...)
		}
	case 6: // the time is not above the median
		t := nextWith(p, top.prev, top.b.Target, 0, timeAt(1), tag(2), top.txs[1:]...)
		put(t)
		e.Head = t.id
	case 7: // the tree is missing
		put(top)
		e.Merkles = e.Merkles[:len(e.Merkles)-1]
	case 8: // the target is not allowed
		t := nextWith(p, top.prev, pow2m1(247), 0, timeAt(top.height), tag(2), top.txs[1:]...)
		put(t)
		e.Head = t.id
	case 9: // everything twice: harmless
		put(top)
		e.Blocks = append(e.Blocks, e.Blocks...)
		e.Merkles = append(e.Merkles, e.Merkles...)
		e.Txs = append(e.Txs, e.Txs...)
		adoptable = good
	}
	f.n.bus.CandidateHead.Pub(e)
	zverif.Settle()
	f.noteStored(bs...)
	for _, t := range e.Txs {
		if f.n.inv.HasTx(t.Hash()) {
			f.note(t)
		}
	}
	h, any = f.n.lastHead()
	if !adoptable {
		ok(!any, "a head is announced although the candidate is invalid or not heavier")
		f.check(old, "after a refused candidate")
		zverif.Reach("refused")
		f.noteIfStored(bs...)
		h, any = f.n.lastHead()
		if good {
			ok(any && h == top.id, "a heavier valid branch is refused after a spoilt offer of it")
			f.check(top, "after the unspoilt offer")
			zverif.Reach("recovered")
		} else {
			ok(!any, "a head is announced although the candidate is invalid or not heavier")
			f.check(old, "after a second refused candidate")
			f.probe(old, bs, 1<<wOld, 1<<wNew)
		}
		return
	}
	ok(any && h == top.id, "a valid heavier candidate is not adopted")
	f.check(top, "after adopting")
	zverif.Reach("adopted")
	f.noteIfStored(old)
	_, any = f.n.lastHead()
	ok(!any, "the lighter branch is adopted again")
	f.check(top, "after offering the lighter branch")
}

// probe: after refused candidates, blocks with the same transactions are judged as if nothing had happened
func (f *forks) probe(old *blk, bs []*blk, wOld, wNew int) {
	if len(bs) != 2 || !f.n.inv.HasBlock(bs[0].id) {
		return
	}
	b := bs[0]
	if wNew <= wOld { // too light itself: the same content on top of the old branch
		b = nextWith(f.p, old, old.b.Target, 0, timeAt(old.height+1), tag(2), bs[0].txs[1:]...)
	}
	f.noteIfStored(b)
	h, any := f.n.lastHead()
	if !applicable(b) {
		ok(!any, "an invalid block is adopted after a refused candidate")
		f.check(old, "after a third refused candidate")
		return
	}
	ok(any && h == b.id, "a valid heavier block is refused after a refused candidate")
	f.check(b, "after adopting a block of the refused branch or its like")
	zverif.Reach("recovered")
}

func (f *forks) noteStored(bs ...*blk) {
	for _, b := range bs {
		for _, t := range b.txs {
			if f.n.inv.HasTx(t.Hash()) {
				f.note(t)
			}
		}
	}
}
