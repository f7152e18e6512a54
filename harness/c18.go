package zharness

import (
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// A node restarted on its save directory has the ledger it had and goes on as if it had not stopped.
// bounds: trunk of 2 blocks; a branch of 0..2 blocks and, in one of two ways, a heavier one that displaces it; every valid content out of 7 per block and every amount; a transaction submitted and pending at the stop; one or two restarts; then a block that includes what was pending or displaced, the same transaction again, and a block of a branch that was not adopted
// assumes: ideal hash and signature
// reach: restarted displaced
// cfg: paths=20000 budget=400
func C18_restart() {
	dir := "save"
	f := newForks(testParams(), false, &dir)
	f.start()
	menu := 7
	grow := func(name string, prev *blk, n int, owner byte, menu int) *blk {
		for i := 0; i < n; i++ {
			prev = next(f.p, prev, tag(owner), f.menu(zverif.Choice(name+sprint(i), menu))...)
			zverif.Assume(applicable(prev))
			f.give(prev.id, prev)
		}
		return prev
	}
	n := zverif.Int("blocks", 0, zverif.Tier(1, 2))
	head := grow("old", f.t2, n, 1, menu)
	if zverif.Bool("displaced") {
		head = grow("new", f.t2, n+1, 2, zverif.Tier(3, 5))
		zverif.Reach("displaced")
	}
	var w core.Tx
	submitted := zverif.Choice("submitted", 3)
	if submitted > 0 {
		w = []core.Tx{f.w, f.x}[submitted-1]
		if applicable(next(f.p, head, tag(9), w)) && !f.knows(w.Hash()) {
			noErr(f.n.offerTx(w), "a valid transaction is refused")
			f.note(w)
		} else {
			submitted = 0
		}
	}
	h, any := f.n.lastHead()
	ok(!any || h == head.id, "the heaviest chain is not adopted")
	f.check(head, "before the restart")
	for i, k := 0, zverif.Int("restarts", 1, zverif.Tier(1, 2)); i < k; i++ {
		f.n = newNode(f.p, false, &dir)
		h, any := f.n.lastHead()
		ok(any && h == head.id, "a restarted node does not adopt the head it had")
		// what was pending is not, but still known
		f.known = nil
		f.check(head, "after the restart")
	}
	zverif.Reach("restarted")
	switch then := zverif.Choice("then", 3); then {
	case 0: // the next block
		b := next(f.p, head, tag(3), f.menu(zverif.Choice("next", zverif.Tier(5, 7)))...)
		zverif.Assume(applicable(b))
		f.give(b.id, b)
		h, any := f.n.lastHead()
		ok(any && h == b.id, "a restarted node refuses a valid block")
		f.check(b, "a block after the restart")
	case 1: // a transaction, and the same one in a block
		var t core.Tx
		if submitted > 0 {
			t = w
		} else {
			t = []core.Tx{f.x, f.z, f.w}[zverif.Choice("tx", 3)]
		}
		b := next(f.p, head, tag(3), t)
		zverif.Assume(applicable(b))
		noErr(f.n.offerTx(t), "a restarted node refuses a valid transaction")
		f.note(t)
		f.check(head, "a transaction after the restart")
		f.give(b.id, b)
		h, any := f.n.lastHead()
		ok(any && h == b.id, "a restarted node refuses a valid block")
		f.check(b, "a block with the transaction after the restart")
	case 2: // a heavier branch from the trunk
		b := f.t2
		var l []*blk
		for len(l) < int(head.height)-1 {
			b = next(f.p, b, tag(3), f.menu(zverif.Choice("branch"+sprint(len(l)), zverif.Tier(2, 4)))...)
			zverif.Assume(applicable(b))
			l = append(l, b)
		}
		f.note(txsOf(head, f.t2)...)
		f.give(b.id, l...)
		h, any := f.n.lastHead()
		ok(any && h == b.id, "a restarted node refuses a heavier chain")
		f.check(b, "a switch after the restart")
	}
}

func (f *forks) knows(id core.HashT) bool {
	for _, t := range f.known {
		if t.Hash() == id {
			return true
		}
	}
	return false
}

// txsOf: what the blocks after until hold
func txsOf(head, until *blk) (l []core.Tx) {
	for b := head; b != until; b = b.prev {
		l = append(l, b.txs...)
	}
	return
}
