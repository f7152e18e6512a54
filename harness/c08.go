package zharness

import (
	"math/big"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// fakeChain answers the questions a retarget asks about one chain: block i has id tag(i), height i
type fakeChain struct {
	times  []uint64 // times[h] of the block at height h
	target core.HashT
}

func (f *fakeChain) h(id core.HashT) int {
	if id.EqZero() {
		return 0
	}
	for i := range f.times {
		if id == tag(byte(i)) {
			return i
		}
	}
	panic("unknown block asked for")
}
func (f *fakeChain) id(h int) core.HashT {
	if h <= 0 {
		return core.HashT{}
	}
	return tag(byte(h))
}
func (f *fakeChain) GetBlock(id core.HashT) core.Block {
	h := f.h(id)
	if h == 0 {
		return core.Block{}
	}
	return core.Block{PrevBlockId: f.id(h - 1), Target: f.target, MinedTime: f.times[h]}
}
func (f *fakeChain) GetBlockHeight(id core.HashT) uint64 { return uint64(f.h(id)) }
func (f *fakeChain) GetBlockAncestors(id core.HashT, n int) (l []core.HashT) {
	if id.EqZero() {
		panic("ancestors of the root asked for")
	}
	for h := f.h(id) - 1; h >= 0 && n > 0; h, n = h-1, n-1 {
		l = append(l, f.id(h))
	}
	return
}
func (f *fakeChain) GetBlockSpecificAncestor(id core.HashT, d int) core.HashT {
	return f.id(f.h(id) - d)
}

func symTarget(name string) core.HashT { // 2^240 <= t < 2^254: what a machine can mine natively, and what networks may allow
	t := symHash(name)
	lo := [32]byte{1: 1}
	zverif.Assume(zverif.And(zverif.Not(zverif.HashLess(t.Data(), lo)), zverif.HashLess(t.Data(), [32]byte{0x40})))
	return t
}

func clampTarget(prev, limit core.HashT, actual, desired uint64) *big.Int {
	t := prev.BigInt()
	q := new(big.Int).Mul(t, new(big.Int).SetUint64(actual))
	q.Div(q, new(big.Int).SetUint64(desired))
	lo := new(big.Int).Div(t, big.NewInt(4))
	hi := new(big.Int).Mul(t, big.NewInt(4))
	if limit.BigInt().Cmp(hi) < 0 {
		hi = limit.BigInt()
	}
	if q.Cmp(lo) < 0 {
		return lo
	}
	if q.Cmp(hi) > 0 {
		return hi
	}
	return q
}

// The next target is the parent's, and at a period boundary the parent's scaled by actual over desired time within the limits.
// bounds: periods of 4, 5 and 8 blocks, heads at heights 1..17, every time, every target and limit in 2^240..2^254, every block time up to 2^32
// assumes: the head of a full period is later than its first block (what block verification guarantees, see the other harness)
// reach: same adjusted
// cfg: paths=4000
func C08_formula() {
	p := testParams()
	p.DifficultyPeriod = []uint64{4, 5, 8}[zverif.Choice("period", 3)]
	p.BlockTargetTime = zverif.U64("block time")
	zverif.Assume(zverif.And(p.BlockTargetTime > 0, p.BlockTargetTime < 1<<32))
	p.MaxTarget, p.OriginalTarget = symTarget("max"), symHash("original")
	h := zverif.Int("height", 1, int(2*p.DifficultyPeriod+1))
	f := &fakeChain{target: symTarget("prev")}
	zverif.Assume(!p.MaxTarget.Lt(f.target))
	for i := 0; i <= h; i++ {
		f.times = append(f.times, zverif.U64("time"+sprint(i)))
	}
	ok(core.NextTarget(p, f, core.HashT{}) == p.OriginalTarget, "the first block's target is not the network's original one")
	P := int(p.DifficultyPeriod)
	if (h+1)%P != 0 {
		ok(core.NextTarget(p, f, tag(byte(h))) == f.target, "the target changes within a period")
		zverif.Reach("same")
		return
	}
	first := h + 1 - P
	if first == 0 {
		first = 1
	}
	zverif.Assume(f.times[first] < f.times[h])
	got := core.NextTarget(p, f, tag(byte(h)))
	want := clampTarget(f.target, p.MaxTarget, f.times[h]-f.times[first], p.BlockTargetTime*uint64(h-first))
	ok(got.BigInt().Cmp(want) == 0, "the adjusted target is not parent target x actual / desired within the limits")
	// never outside the limits block verification applies
	ok(!got.Lt(f.target.MinNextTarget()), "the adjusted target is harder than verification allows")
	ok(!f.target.MaxNextTarget(p).Lt(got), "the adjusted target is easier than verification allows")
	ok(!p.MaxTarget.Lt(got), "the adjusted target is easier than the network allows")
	zverif.Reach("adjusted")
}

// The bounds on the next target are a quarter and four times the parent's, capped by the network's.
// bounds: every target below 2^254 and every limit
// reach: end
func C08_bounds() {
	p := testParams()
	p.MaxTarget = symHash("max")
	t := symHash("t")
	zverif.Assume(zverif.HashLess(t.Data(), [32]byte{0x40}))
	q := t.BigInt()
	ok(t.MinNextTarget().BigInt().Cmp(new(big.Int).Div(q, big.NewInt(4))) == 0, "the hardest next target is not a quarter")
	hi := new(big.Int).Mul(q, big.NewInt(4))
	if p.MaxTarget.BigInt().Cmp(hi) < 0 {
		hi = p.MaxTarget.BigInt()
	}
	ok(t.MaxNextTarget(p).BigInt().Cmp(hi) == 0, "the easiest next target is not four times the parent's within the network's limit")
	zverif.Reach("end")
}

// The measured adjustment of a period so far is the time since its first block against the time that many blocks should take.
// bounds: periods of 4, 5 and 8 blocks, heads at heights 1..17, every time, every block time up to 2^32
// reach: early unordered measured
func C08_measured() {
	p := testParams()
	p.DifficultyPeriod = []uint64{4, 5, 8}[zverif.Choice("period", 3)]
	p.BlockTargetTime = zverif.U64("block time")
	zverif.Assume(p.BlockTargetTime < 1<<32)
	P := int(p.DifficultyPeriod)
	h := zverif.Int("height", 1, 2*P+1)
	f := &fakeChain{}
	for i := 0; i <= h; i++ {
		f.times = append(f.times, zverif.U64("time"+sprint(i)))
	}
	first := h / P * P
	if first == 0 {
		first = 1
	}
	actual, desired, err := core.ExpectedTargetAdjustment(p, f, tag(byte(h)))
	if h == first {
		ok(err != nil, "a period of one block is measured")
		zverif.Reach("early")
		return
	}
	ok((err == nil) == (f.times[first] < f.times[h]), "a period is measured exactly if its last block is later than its first")
	if err != nil {
		zverif.Reach("unordered")
		return
	}
	ok(actual == f.times[h]-f.times[first], "the measured time is not that since the period's first block")
	ok(desired == p.BlockTargetTime*uint64(h-first), "the expected time is not the block time for each block since the period's first")
	zverif.Reach("measured")
}

func someTarget() core.HashT {
	return hexHash([]string{easy, "03fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffe", "0080000000000000000000000000000000000000000000000000000000000001"}[zverif.Choice("target", 3)])
}

func retargetChain(v *inv.Inv, p core.Params, prev *blk, target core.HashT, time uint64) (*blk, error) {
	h := uint64(1)
	if prev != nil {
		h = prev.height + 1
	}
	b := rawBlock(prev, target, time, []core.Tx{coinbase(h, p.BlockReward, tag(1))})
	return b, storeTop(v, b)
}

// On every accepted first period the next target can be computed, and a block with that target is accepted.
// bounds: period 4, arbitrary times of all blocks, three original targets up to the network limit, block times of 1, 10 and 720 seconds
// reach: boundary
// cfg: paths=4000
func C08_first_period() {
	const now = baseTime + 1000
	zverif.SetNow(now)
	p := testParams()
	p.OriginalTarget = someTarget()
	p.BlockTargetTime = []uint64{1, 10, 720}[zverif.Choice("block time", 3)]
	v := inv.NewInv(p, nil)
	var prev *blk
	var times []uint64
	for h := 1; h <= 3; h++ {
		target := core.NextTarget(p, v, idOf(prev))
		t := zverif.U64("time" + sprint(h))
		b, err := retargetChain(v, p, prev, target, t)
		zverif.Assume(err == nil)
		prev = b
		times = append(times, t)
	}
	target := core.NextTarget(p, v, prev.id)
	ok(target.BigInt().Cmp(clampTarget(p.OriginalTarget, p.MaxTarget, times[2]-times[0], p.BlockTargetTime*2)) == 0, "the target after the first period is wrong")
	t := zverif.U64("time4")
	zverif.Assume(zverif.And(t <= now, t > times[0], t > times[1], t > times[2]))
	_, err := retargetChain(v, p, prev, target, t)
	noErr(err, "a block with the computed target is refused")
	zverif.Reach("boundary")
}

func idOf(b *blk) core.HashT {
	if b == nil {
		return core.HashT{}
	}
	return b.id
}

// The same for a later period, which is measured from its own first block.
// bounds: period 4 (also 5 thorough), second period, arbitrary times of its first and last block, three original targets up to the network limit
// reach: boundary
// cfg: paths=4000
func C08_later_period() {
	const now = baseTime + 1000
	zverif.SetNow(now)
	p := testParams()
	if zverif.Tier(0, 1) == 1 {
		p.DifficultyPeriod = uint64(zverif.Int("period", 4, 5))
	}
	p.OriginalTarget = someTarget()
	v := inv.NewInv(p, nil)
	P := int(p.DifficultyPeriod)
	times := make([]uint64, 2*P)
	var prev *blk
	for h := 1; h < 2*P; h++ {
		target := p.OriginalTarget
		if prev != nil {
			target = prev.b.Target
		}
		times[h] = timeAt(uint64(h))
		if h == P || h == 2*P-1 {
			times[h] = zverif.U64("time" + sprint(h))
		}
		b, err := retargetChain(v, p, prev, target, times[h])
		zverif.Assume(err == nil)
		prev = b
	}
	target := core.NextTarget(p, v, prev.id)
	ok(target.BigInt().Cmp(clampTarget(p.OriginalTarget, p.MaxTarget, times[2*P-1]-times[P], p.BlockTargetTime*uint64(P-1))) == 0, "the target after a later period is wrong")
	_, err := retargetChain(v, p, prev, target, now+3600)
	noErr(err, "a block with the computed target is refused")
	zverif.Reach("boundary")
}
