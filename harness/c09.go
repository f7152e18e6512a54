package zharness

import (
	"math/big"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Lt is the order of the 256-bit big-endian values, Eq is equality, EqZero is being zero.
// bounds: every pair of 256-bit hashes
// reach: end
func C09_order() {
	a, b := symHash("a"), symHash("b")
	ok(a.Lt(b) == zverif.HashLess(a.Data(), b.Data()), "Lt differs from the order of the big-endian values")
	ok(b.Lt(a) == zverif.HashLess(b.Data(), a.Data()), "Lt differs from the order of the big-endian values")
	ok(a.Eq(b) == zverif.HashEq(a.Data(), b.Data()), "Eq differs from equality of the bytes")
	ok(a.EqZero() == zverif.HashEq(a.Data(), [32]byte{}), "EqZero differs from being zero")
	zverif.Reach("end")
}

// Comparison is a strict total order (irreflexive, transitive, trichotomous).
// bounds: every triple of 256-bit hashes
// reach: end
func C09_order_laws() {
	a, b, c := symHash("a"), symHash("b"), symHash("c")
	ab, ba, bc, ac := a.Lt(b), b.Lt(a), b.Lt(c), a.Lt(c)
	ok(!a.Lt(a), "a hash is less than itself")
	ok(zverif.Implies(zverif.And(ab, bc), ac), "Lt is not transitive")
	ok(zverif.Not(zverif.And(ab, ba)), "two hashes are each less than the other")
	ok(zverif.Or(ab, ba, a.Eq(b)), "two different hashes are not ordered")
	zverif.Reach("end")
}

func max256() *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), 256)
	return m.Sub(m, big.NewInt(1))
}

// w = floor((2^256-1)/t), stated without division
func isWork(w *big.Int, t *big.Int) bool {
	lo := new(big.Int).Mul(w, t)
	hi := new(big.Int).Add(lo, t)
	return lo.Cmp(max256()) <= 0 && hi.Cmp(max256()) > 0
}

// The work of a target is floor((2^256-1)/target).
// bounds: every non-zero 256-bit target
// reach: end
func C09_target_work() {
	t := symHash("t")
	zverif.Assume(!t.EqZero())
	ok(isWork(t.TargetToWork(), t.BigInt()), "work of a target is not floor((2^256-1)/target)")
	zverif.Reach("end")
}

// Adding a target's work to a running total is exact, for every total that leaves room.
// bounds: every 256-bit target of at least 2^16 and every total below 2^255
// reach: end
func C09_append() {
	t, cur := symHash("t"), symHash("cur")
	zverif.Assume(zverif.HashLess(hexHash("000000000000000000000000000000000000000000000000000000000000ffff").Data(), t.Data()))
	zverif.Assume(zverif.HashLess(cur.Data(), hexHash("8000000000000000000000000000000000000000000000000000000000000000").Data()))
	sum := cur.WorkAppendTarget(t)
	w := new(big.Int).Sub(sum.BigInt(), cur.BigInt())
	ok(isWork(w, t.BigInt()), "accumulated work is not previous work plus floor((2^256-1)/target)")
	ok(cur.Lt(sum), "adding a block does not increase the work")
	zverif.Reach("end")
}

// Total work of a list of targets is the sum of their works.
// bounds: up to 3 targets of at least 2^16
// reach: end
func C09_total() {
	n := zverif.Choice("n", 4)
	var ts []core.HashT
	sum := big.NewInt(0)
	for i := 0; i < n; i++ {
		t := symHash("t")
		zverif.Assume(zverif.HashLess(hexHash("000000000000000000000000000000000000000000000000000000000000ffff").Data(), t.Data()))
		ts = append(ts, t)
		sum.Add(sum, t.TargetToWork())
	}
	ok(core.TargetsToTotalWork(ts).Cmp(sum) == 0, "total work of a list is not the sum of the works")
	zverif.Reach("end")
}

// The inventory records height parent+1 and total work parent + floor((2^256-1)/target) for every stored block.
// bounds: chain of 3 blocks, every first target 2^236..2^254-1, arbitrary mined times
// reach: end
func C09_recorded() {
	zverif.SetNow(baseTime + 1000)
	p := testParams()
	t := symHash("target")
	zverif.Assume(zverif.HashLess(hexHash("00000fffffffffffffffffffffffffffffffffffffffffffffffffffffffffff").Data(), t.Data()))
	zverif.Assume(zverif.HashLess(t.Data(), hexHash("4000000000000000000000000000000000000000000000000000000000000000").Data()))
	p.OriginalTarget = t
	v := inv.NewInv(p, nil)
	ok(v.GetBlockHeight(core.HashT{}) == 0, "the root does not have height 0")
	ok(v.GetBlockTotalWork(core.HashT{}).EqZero(), "the root has work")
	var b *blk
	prev := core.HashT{}
	for i := 1; i <= 3; i++ {
		b = next(p, b, tag(1))
		store(v, b)
		ok(v.GetBlockHeight(b.id) == uint64(i), "recorded height is not parent's plus one")
		now := v.GetBlockTotalWork(b.id)
		ok(isWork(new(big.Int).Sub(now.BigInt(), v.GetBlockTotalWork(prev).BigInt()), t.BigInt()), "recorded total work is not the parent's plus the block's")
		ok(v.GetBlockTotalWork(prev).Lt(now), "total work does not increase along the chain")
		prev = b.id
	}
	zverif.Reach("end")
}
