package zharness

import (
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// balanceIn: what the ledger says a key has
func balanceIn(l []coin, k core.HashT) uint64 {
	sum := uint64(0)
	for _, c := range l {
		if c.owner == k {
			sum += c.u.Value
		}
	}
	return sum
}

// checkRich: the answer holds the n largest balances of the keys owning an output
func checkRich(n *node, head *blk, max uint64) {
	l := ledger(head)
	var owners []core.HashT
	for _, c := range l {
		dup := false
		for _, o := range owners {
			dup = dup || o == c.owner
		}
		if !dup {
			owners = append(owners, c.owner)
		}
	}
	got := n.rich(max)
	want := len(owners)
	if max < uint64(want) {
		want = int(max)
	}
	ok(len(got) == want, "the rich list has the wrong length")
	low := maxU64
	for _, o := range owners {
		if b, has := got[o]; has {
			ok(b == balanceIn(l, o), "a balance in the rich list is wrong")
			low = zverif.IteU64(b < low, b, low)
			want--
		}
	}
	ok(want == 0, "the rich list names a key that owns nothing")
	for _, o := range owners {
		if _, has := got[o]; !has {
			ok(balanceIn(l, o) <= low, "a richer key is missing from the rich list")
		}
	}
}

// Every ledger query answers from the adopted chain, whatever was asked before.
// bounds: trunk of 2 blocks and 1 further block (2 thorough) with every valid content out of 7, up to 5 pending transactions, every amount, keys with and without outputs, unknown transactions, every 64-bit list length
// assumes: ideal hash and signature
// reach: end
// cfg: paths=20000 budget=400
func C22_queries() {
	f := newForks(testParams(), false, nil)
	f.start()
	switch zverif.Choice("pending", 4) {
	case 1:
		setup(f.n.offerTx(f.x))
		f.note(f.x)
	case 2:
		for _, t := range []core.Tx{f.x, f.y, f.z} {
			setup(f.n.offerTx(t))
			f.note(t)
		}
	case 3:
		for _, t := range []core.Tx{f.x, f.w, f.v} {
			setup(f.n.offerTx(t))
			f.note(t)
		}
	}
	f.check(f.t2, "before")
	head := f.t2
	for i := 0; i < zverif.Tier(1, 2); i++ {
		head = next(f.p, head, []core.HashT{tag(1), f.k1.pkh}[zverif.Choice("miner"+sprint(i), 2)], f.menu(zverif.Choice("block"+sprint(i), 7))...)
		zverif.Assume(applicable(head))
		f.give(head.id, head)
	}
	f.check(head, "after")
	max := zverif.U64("length")
	checkRich(f.n, head, max)
	checkRich(f.n, head, max)
	// one key, an unknown key, no key
	l := ledger(head)
	for _, k := range append([]core.HashT{tag(99)}, f.pkhs...) {
		b := f.n.balances(k)
		ok(len(b) == 1 && b[k] == balanceIn(l, k), "the balance of one key is wrong")
		u := f.n.utxos(false, k)
		cnt := 0
		for _, c := range l {
			if c.owner == k {
				cnt++
				o, has := u[c.u]
				ok(has && o == k, "an output of one key is missing")
			}
		}
		ok(len(u) == cnt, "outputs of another key are listed")
	}
	ok(len(f.n.balances()) == 0 && len(f.n.utxos(false)) == 0 && len(f.n.utxos(true)) == 0, "asking about no key answers something")
	ok(len(f.n.confirms(tag(98))) == 0, "an unknown transaction has confirmations")
	ok(len(f.n.included(tag(98))) == 0, "an unknown transaction has an inclusion block")
	f.check(head, "after asking")
	zverif.Reach("end")
}
