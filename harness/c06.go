package zharness

import (
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

func minMax(a, b uint64) (uint64, uint64) {
	return zverif.IteU64(a < b, a, b), zverif.IteU64(a < b, b, a)
}

// medianOf: the middle of at most five values, the mean (rounded down) of the middle two of an even number
func medianOf(l []uint64) uint64 {
	l = append([]uint64{}, l...)
	for i := range l {
		for j := 0; j+1 < len(l)-i; j++ {
			l[j], l[j+1] = minMax(l[j], l[j+1])
		}
	}
	n := len(l)
	if n%2 == 1 {
		return l[n/2]
	}
	return (l[n/2-1] + l[n/2]) / 2
}

func checkStored(v *inv.Inv, b *blk) {
	ok(v.HasBlock(b.id), "an accepted block is not known")
	ok(v.GetBlock(b.id) == b.b, "an accepted block is stored changed")
	ok(v.GetBlockHeight(b.id) == b.height, "an accepted block's height is wrong")
	ok(v.StoreBlock(b.b) != nil, "a known block is accepted again")
}

// judge stores the block (its transactions and tree are known already) and compares with the rules' answer
func judge(v *inv.Inv, b *blk, good bool, why string) {
	if v.StoreBlock(b.b) == nil {
		ok(good, why+": a block breaking the rules is accepted")
		checkStored(v, b)
		zverif.Reach("accepted")
	} else {
		ok(zverif.Not(good), why+": a block meeting the rules is refused")
		ok(!v.HasBlock(b.id), why+": a refused block is known")
		zverif.Reach("refused")
	}
}

// put stores the block's transactions and tree
func put(v *inv.Inv, b *blk) {
	for _, t := range b.txs {
		if !v.HasTx(t.Hash()) {
			setup(v.StoreTx(t))
		}
	}
	for _, m := range b.ms {
		if !v.HasMerkle(m.Hash()) {
			setup(v.StoreMerkle(m))
		}
	}
}

// The time rules: above the median of up to five previous times, at most an hour ahead, and the last block of a period later than its first.
// bounds: 0..5 previous blocks (8 thorough) with arbitrary valid times, arbitrary time and clock, periods of 4 and 5
// assumes: clock below 2^62
// reach: accepted refused
// cfg: paths=40000 budget=500
func C06_time() {
	p := testParams()
	p.DifficultyPeriod = uint64(zverif.Int("period", 4, 5))
	now := zverif.U64("now")
	zverif.Assume(now < 1<<62 && now > 0)
	zverif.SetNow(now)
	v := inv.NewInv(p, nil)
	var head *blk
	times := []uint64{0} // by height
	n := zverif.Int("previous", 0, zverif.Tier(5, 8))
	for i := 1; i <= n+1; i++ {
		t := zverif.U64("t" + sprint(i))
		b := rawBlock(head, p.OriginalTarget, t, []core.Tx{coinbase(uint64(i), p.BlockReward, tag(1))})
		good := t <= now+3600
		if i > 1 {
			lo := 1
			if i > 5 {
				lo = i - 5
			}
			good = zverif.And(good, t > medianOf(times[lo:i]))
		}
		if (i+1)%int(p.DifficultyPeriod) == 0 {
			first := i + 1 - int(p.DifficultyPeriod)
			if first < 1 {
				first = 1
			}
			good = zverif.And(good, t > times[first])
		}
		times = append(times, t)
		put(v, b)
		if i <= n {
			zverif.Assume(good)
			setup(v.StoreBlock(b.b))
			head = b
			continue
		}
		judge(v, b, good, "time")
	}
}

// The time rule looks at the last five blocks only, however long the chain.
// bounds: 6..8 previous blocks (10 thorough) with any increasing times, arbitrary time of the next one
// assumes: clock below 2^62
// reach: accepted refused
// cfg: paths=5000 budget=200
func C06_window() {
	p := testParams()
	p.DifficultyPeriod = 100
	now := zverif.U64("now")
	zverif.Assume(now < 1<<62)
	zverif.SetNow(now)
	v := inv.NewInv(p, nil)
	var head *blk
	var times []uint64
	n := zverif.Int("previous", 6, zverif.Tier(8, 10))
	for i := 1; i <= n; i++ {
		t := zverif.U64("t" + sprint(i))
		zverif.Assume(t <= now+3600)
		if i > 1 {
			zverif.Assume(t > times[i-2])
		}
		times = append(times, t)
		head = rawBlock(head, p.OriginalTarget, t, []core.Tx{coinbase(uint64(i), p.BlockReward, tag(1))})
		put(v, head)
		setup(v.StoreBlock(head.b))
	}
	t := zverif.U64("t")
	b := rawBlock(head, p.OriginalTarget, t, []core.Tx{coinbase(uint64(n+1), p.BlockReward, tag(1))})
	put(v, b)
	judge(v, b, zverif.And(t > times[n-3], t <= now+3600), "window")
}

// The work rules: the id is below the target and the target is the required one, for every place in a period.
// bounds: 0..8 previous blocks at period 4, every 256-bit target, every nonce and noise
// assumes: ideal hash
// reach: accepted refused
// cfg: paths=20000 budget=300
func C06_target() {
	p := testParams()
	zverif.SetNow(baseTime + 10000)
	v := inv.NewInv(p, nil)
	head := chainOf(p, nil, zverif.Int("previous", 0, 8), tag(1))
	store(v, head)
	h := uint64(1)
	if head != nil {
		h = head.height + 1
	}
	target := symHash("target")
	cb := coinbase(h, p.BlockReward, tag(1))
	ms, root := tree([]core.HashT{cb.Hash()})
	r := &blk{txs: []core.Tx{cb}, ms: ms, prev: head, height: h}
	r.b = core.Block{MerkleRoot: root, Target: target, MinedTime: timeAt(h), Noise: symHash("noise"), Nonce: zverif.U64("nonce")}
	if head != nil {
		r.b.PrevBlockId = head.id
	}
	r.id = r.b.Hash()
	put(v, r)
	easyT := hexHash(easy)
	good := zverif.HashLess(r.id.Data(), target.Data())
	if h%p.DifficultyPeriod == 0 { // a quarter up to the maximum
		quarter := hexHash("03ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
		good = zverif.And(good, zverif.Not(zverif.HashLess(target.Data(), quarter.Data())), zverif.Not(zverif.HashLess(easyT.Data(), target.Data())))
	} else {
		good = zverif.And(good, zverif.HashEq(target.Data(), easyT.Data()))
	}
	judge(v, r, good, "target")
}

// The content rules: the first and only the first transaction is a coinbase for this height, and values balance exactly.
// bounds: heights 1..3; a coinbase (arbitrary minimum block and value) and 0..2 payments with arbitrary amounts, or two coinbases, in every order; arbitrary reward
// assumes: ideal hash and signature
// reach: accepted refused
// cfg: paths=20000 budget=400
func C06_content() {
	p := testParams()
	zverif.SetNow(baseTime + 1000)
	k0 := keyN(0)
	v := inv.NewInv(p, nil)
	head := chainOf(p, nil, zverif.Int("previous", 0, 2), k0.pkh)
	store(v, head)
	h := uint64(1)
	if head != nil {
		h = head.height + 1
	}
	cb := coinbase(zverif.U64("minblock"), zverif.U64("coinbase"), tag(1))
	zverif.Assume(cb.Outputs[0].Value >= p.BlockReward)
	txs := []core.Tx{cb}
	worth := zverif.U64("worth")
	zverif.Assume(worth >= p.BlockReward)
	src := coinbase(50, worth, k0.pkh) // known, in no block
	src2 := coinbase(51, worth, k0.pkh)
	setup(v.StoreTx(src))
	setup(v.StoreTx(src2))
	a, b := zverif.U64("a"), zverif.U64("b")
	zverif.Assume(a < worth && b < worth)
	x := pay(k0, utxoOf(src, 0), out(a, tag(2)))
	y := pay(k0, utxoOf(src2, 0), out(b, tag(3)))
	cb2 := coinbase(h, p.BlockReward, tag(4))
	shape := zverif.Choice("shape", 9)
	first, only := true, true
	switch shape {
	case 0:
	case 1:
		txs = []core.Tx{cb, x}
	case 2:
		txs = []core.Tx{cb, x, y}
	case 3:
		txs, first = []core.Tx{x, cb}, false
	case 4:
		txs, only = []core.Tx{cb, cb2}, false
	case 5:
		txs, only = []core.Tx{cb, x, cb2}, false
	case 6:
		txs, first = []core.Tx{x}, false
	case 7:
		txs, first = []core.Tx{x, y}, false
	case 8:
		txs, only, first = []core.Tx{x, cb, cb2}, false, false
	}
	zverif.Assume(zverif.Or(zverif.Not(zverif.HashEq(cb.Hash().Data(), cb2.Hash().Data())), only))
	ins, outs := []uint64{p.BlockReward}, []uint64{}
	for _, t := range txs {
		ins, outs = append(ins, inVals(t)...), append(outs, outVals(t)...)
	}
	r := rawBlock(head, p.OriginalTarget, timeAt(h), txs)
	put(v, r)
	good := zverif.And(first, only, zverif.SumCmp(ins, outs) == 0, fits64(ins), cb.MinBlock == h)
	judge(v, r, good, "content")
}

// The links: a block with an unknown parent or tree is refused; with both known it is accepted, on whichever branch.
// bounds: trunk 1..3; parent: any block of the trunk, the root, or unknown; tree: known, unknown, or a transaction in place of a tree
// reach: accepted refused
// cfg: paths=5000
func C06_links() {
	p := testParams()
	zverif.SetNow(baseTime + 1000)
	v := inv.NewInv(p, nil)
	trunk := chainOf(p, nil, zverif.Int("trunk", 1, 3), tag(1)).path()
	store(v, trunk[len(trunk)-1])
	var prev *blk
	good := true
	k := zverif.Choice("parent", len(trunk)+2)
	if k > 0 && k <= len(trunk) {
		prev = trunk[k-1]
	}
	b := next(p, prev, tag(2))
	if k > len(trunk) { // unknown parent
		b.b.PrevBlockId = symHash("parent id")
		for _, t := range trunk {
			zverif.Assume(b.b.PrevBlockId != t.id)
		}
		zverif.Assume(!b.b.PrevBlockId.EqZero())
		good = false
	}
	switch zverif.Choice("tree", 3) {
	case 0:
		put(v, b)
	case 1:
		for _, t := range b.txs {
			setup(v.StoreTx(t))
		}
		good = false
	case 2:
		put(v, b)
		b.b.MerkleRoot = b.txs[0].Hash()
		good = false
	}
	b.b = mine(b.b)
	b.id = b.b.Hash()
	judge(v, b, good, "links")
	if !good {
		return
	}
	// a child of the new block too
	c := next(p, b, tag(3))
	put(v, c)
	judge(v, c, true, "child")
}

// The size rule counts every transaction of the block once.
// bounds: coinbase and 0..3 payments, every limit
// assumes: limit at least a coinbase's size
// reach: accepted refused
// cfg: paths=5000
func C06_size() {
	p := testParams()
	p.MaxBlockVSize = zverif.U64("limit")
	zverif.Assume(p.MaxBlockVSize >= 112 && p.MaxBlockVSize < 1<<40)
	zverif.SetNow(baseTime + 1000)
	k0 := keyN(0)
	v := inv.NewInv(p, nil)
	var txs []core.Tx
	for i, n := 0, zverif.Int("payments", 0, 3); i < n; i++ {
		src := coinbase(uint64(50+i), 5000, k0.pkh)
		setup(v.StoreTx(src))
		txs = append(txs, pay(k0, utxoOf(src, 0), out(5, tag(2)), out(6, tag(3))))
	}
	b := next(p, nil, tag(1), txs...)
	size := uint64(0)
	for _, t := range b.txs {
		s := uint64(72) + 40*uint64(len(t.Outputs))
		for _, i := range t.Inputs {
			s += 48 + uint64(len(i.PublicKey)+len(i.Signature))
		}
		size += s
		setup(v.StoreTx(t))
	}
	fits := true
	for _, m := range b.ms {
		if v.HasMerkle(m.Hash()) {
			continue
		}
		if v.StoreMerkle(m) != nil {
			fits = false
			break
		}
	}
	if !fits {
		ok(size > p.MaxBlockVSize, "a tree within the size limit is refused")
		ok(v.StoreBlock(b.b) != nil, "a block over the size limit is accepted")
		zverif.Reach("refused")
		return
	}
	ok(size <= p.MaxBlockVSize, "a tree over the size limit is accepted")
	ok(v.StoreBlock(b.b) == nil, "a block within the size limit is refused")
	zverif.Reach("accepted")
}
