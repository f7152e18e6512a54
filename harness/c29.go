package zharness

import (
	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

// lastTarget returns the last mining target published since the previous call
func lastTarget(ch *topic.SubCh[bus.MinerTargetEvent]) (e bus.MinerTargetEvent, any bool) {
	zverif.Settle()
	for {
		select {
		case e = <-ch.C:
			any = true
			zverif.Settle()
		default:
			return
		}
	}
}

func offered(e bus.MinerTargetEvent, id core.HashT) bool {
	for _, t := range e.TxIds {
		if t == id {
			return true
		}
	}
	return false
}

// A transaction is adopted and offered to miners from its minimum block on and never before.
// bounds: every 64-bit minimum block; included at heights 3..5, alone or after another transaction; known to the node before or not; the block below may sit on a branch that replaces another
// assumes: ideal hash and signature
// reach: adopted refused
// cfg: paths=5000 budget=300
func C29_height() {
	p := testParams()
	f := newForks(p, true, nil)
	targets := f.n.bus.MinerTarget.SubCh()
	f.start()
	m := zverif.U64("minblock")
	x := payN(f.k0, m, []core.Utxo{utxoOf(f.t1.txs[0], 0)}, out(400, f.k1.pkh))
	known := zverif.Bool("known before")
	offeredAt := func(head *blk) {
		e, any := lastTarget(targets)
		ok(any && e.Head == head.id, "no mining target for the new head")
		if known {
			ok(zverif.Iff(offered(e, x.Hash()), m <= head.height+1), "a transaction is offered to miners before its minimum block, or not from then on")
		} else {
			ok(!offered(e, x.Hash()), "an unknown transaction is offered to miners")
		}
	}
	if known {
		setup(f.n.offerTx(x))
		f.note(x)
	}
	offeredAt(f.t2)
	head := f.t2
	if zverif.Bool("branch") { // another block first, replaced later
		o := next(p, f.t2, tag(9))
		f.give(o.id, o)
		f.n.lastHead()
		a := next(p, f.t2, tag(1))
		b := next(p, a, tag(1))
		f.give(b.id, a, b)
		head = b
		h, any := f.n.lastHead()
		ok(any && h == b.id, "a heavier branch is not adopted")
		offeredAt(head)
	}
	for head.height < uint64(2+zverif.Int("empty", 0, 2)) {
		head = next(p, head, tag(1))
		f.give(head.id, head)
		h, any := f.n.lastHead()
		ok(any && h == head.id, "a valid block is not adopted")
		offeredAt(head)
	}
	txs := []core.Tx{x}
	if zverif.Bool("second") {
		txs = []core.Tx{f.w, x}
	}
	b := next(p, head, tag(2), txs...)
	f.noteIfStored(b)
	h, any := f.n.lastHead()
	if any {
		ok(h == b.id, "another block is adopted")
		ok(m <= b.height, "a block below a transaction's minimum block is adopted")
		f.check(b, "after adopting")
		zverif.Reach("adopted")
		return
	}
	ok(m > b.height, "a block is refused although its transactions' minimum block is reached")
	f.check(head, "after refusing")
	zverif.Reach("refused")
	// an empty block in its place, then the transaction one higher
	c := next(p, head, tag(3))
	f.give(c.id, c)
	d := next(p, c, tag(2), x)
	f.noteIfStored(d)
	h, _ = f.n.lastHead()
	ok(zverif.Iff(h == d.id, m <= d.height), "inclusion one block later is decided wrong")
}
