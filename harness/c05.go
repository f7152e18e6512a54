package zharness

import (
	"github.com/levilutz/basiccoin/internal/zverif"
)

// Switching to a heavier branch leaves exactly that branch's ledger, everything displaced pending again.
// bounds: trunk of 2 blocks, old branch of 1..2 blocks, new branch one longer; every valid content out of 7 per block (intra-block chains, conflicts between branches, shared transactions); every amount; same or another miner; branches given at once or block by block
// assumes: ideal hash and signature
// reach: switched back
// cfg: paths=20000 budget=400
func C05_reorg() {
	f := newForks(testParams(), false, nil)
	f.start()
	grow := func(name string, prev *blk, n int, owner byte) (*blk, []*blk) {
		var l []*blk
		for i := 0; i < n; i++ {
			prev = next(f.p, prev, tag(owner), f.menu(zverif.Choice(name+sprint(i), 7))...)
			zverif.Assume(applicable(prev))
			l = append(l, prev)
		}
		return prev, l
	}
	give := func(name string, head *blk, l []*blk) {
		if zverif.Bool(name + " at once") {
			f.give(head.id, l...)
		} else {
			for _, b := range l {
				f.give(b.id, b)
			}
		}
	}
	n := zverif.Int("old", 1, zverif.Tier(1, 2))
	old, l := grow("old", f.t2, n, 1)
	give("old", old, l)
	f.check(old, "after extending")
	owner := byte(2)
	if zverif.Bool("same miner") {
		owner = 1
	}
	neu, l := grow("new", f.t2, n+1, owner)
	zverif.Assume(l[0].id != f.t2.id)
	give("new", neu, l)
	h, any := f.n.lastHead()
	ok(any && h == neu.id, "a valid heavier branch is not adopted")
	f.check(neu, "after switching")
	zverif.Reach("switched")
}
