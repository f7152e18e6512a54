package zharness

import (
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// full menu: also contents that can never be applied
const fullMenu = 12

func (f *forks) anyMenu(i int) []core.Tx {
	switch i {
	case 9: // the same transaction twice
		return []core.Tx{f.w, f.x, f.x}
	case 10: // a spend of an output of both
		return []core.Tx{f.x, f.w, f.v, f.y}
	case 11: // spends an output of a transaction that is not in the chain
		return []core.Tx{f.v}
	}
	return f.menu(i)
}

// No output is spent twice, or without existing, in a block or across the blocks of a chain.
// bounds: trunk of 2 blocks, then two further blocks (three thorough) offered one by one, every combination of 12 contents (repeats, conflicts, wrong order, spends of missing outputs), transactions known beforehand or not, every amount
// assumes: ideal hash and signature
// reach: adopted refused
// cfg: paths=20000 budget=400
func C02_chain() {
	f := newForks(testParams(), false, nil)
	f.start()
	if zverif.Bool("known before") {
		for _, t := range []core.Tx{f.x, f.y, f.z, f.w, f.v} {
			setup(f.n.offerTx(t))
			f.note(t)
		}
	}
	head := f.t2
	for i := 0; i < zverif.Tier(2, 3); i++ {
		b := next(f.p, head, tag(1), f.anyMenu(zverif.Choice("block"+sprint(i), fullMenu))...)
		f.noteIfStored(b)
		h, any := f.n.lastHead()
		if any {
			ok(h == b.id, "another block is adopted")
			ok(applicable(b), "a block that spends an output twice or out of nowhere is adopted")
			head = b
			zverif.Reach("adopted")
		} else {
			zverif.Reach("refused")
		}
		f.check(head, "after a block")
	}
}

// noteIfStored offers b; what of it the node then knows is known
func (f *forks) noteIfStored(bs ...*blk) {
	f.n.offer(bs[len(bs)-1].id, bs...)
	f.noteStored(bs...)
}

// The same across a switch of branches: what the old branch spent or created does not count on the new one.
// bounds: old branch of one block (5 contents), new branch of two blocks, every combination of 12 contents, every amount
// assumes: ideal hash and signature
// reach: adopted refused
// cfg: paths=20000 budget=400
func C02_fork() {
	f := newForks(testParams(), false, nil)
	f.start()
	old := next(f.p, f.t2, tag(1), f.menu(zverif.Choice("old", 5))...)
	f.give(old.id, old)
	h, any := f.n.lastHead()
	ok(any && h == old.id, "a valid block is not adopted")
	a := next(f.p, f.t2, tag(2), f.anyMenu(zverif.Choice("new0", fullMenu))...)
	b := next(f.p, a, tag(2), f.anyMenu(zverif.Choice("new1", fullMenu))...)
	f.noteIfStored(a, b)
	head := old
	if h, any := f.n.lastHead(); any {
		ok(h == b.id, "another block is adopted")
		ok(applicable(b), "a branch that spends an output twice or out of nowhere is adopted")
		head = b
		zverif.Reach("adopted")
	} else {
		zverif.Reach("refused")
	}
	f.check(head, "after the switch")
}
