package zharness

import (
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// symChild: a block whose noise is arbitrary, so that ids are arbitrary
func symChild(p core.Params, prev *blk, name string, owner core.HashT) *blk {
	h, target := uint64(1), p.OriginalTarget
	if prev != nil {
		h, target = prev.height+1, prev.b.Target
	}
	txs := []core.Tx{coinbase(h, p.BlockReward, owner)}
	ms, root := tree([]core.HashT{txs[0].Hash()})
	r := &blk{txs: txs, ms: ms, prev: prev, height: h}
	b := core.Block{MerkleRoot: root, Target: target, MinedTime: timeAt(h), Noise: symHash(name)}
	if prev != nil {
		b.PrevBlockId = prev.id
	}
	r.b = mine(b)
	r.id = r.b.Hash()
	return r
}

func checkAncestry(v *inv.Inv, bs []*blk) {
	zero := core.HashT{}
	up := make([][]core.HashT, len(bs)) // ancestors, nearest first, ending in the zero block
	for i, b := range bs {
		for p := b.prev; p != nil; p = p.prev {
			up[i] = append(up[i], p.id)
		}
		up[i] = append(up[i], zero)
	}
	index := func(l []core.HashT, x core.HashT) int {
		for i, y := range l {
			if x == y {
				return i
			}
		}
		return -1
	}
	for i, b := range bs {
		ok(v.HasBlock(b.id), "a stored block is not known")
		ok(v.GetBlockHeight(b.id) == b.height, "a block's height is not its parent's plus one")
		ok(v.GetBlockParentId(b.id) == up[i][0], "a block's parent is wrong")
		for n := 0; n <= len(up[i])+2; n++ {
			want := up[i]
			if n < len(want) {
				want = want[:n]
			}
			got := v.GetBlockAncestors(b.id, n)
			ok(len(got) == len(want), "the ancestors of a block are wrong in number")
			for k := range want {
				ok(got[k] == want[k], "the ancestors of a block are wrong")
			}
			w := b.id
			if n > 0 {
				w = want[len(want)-1]
			}
			ok(v.GetBlockSpecificAncestor(b.id, n) == w, "the ancestor at a depth is wrong")
		}
		all := append([]core.HashT{b.id}, up[i]...)
		others := []core.HashT{zero, tag(9)}
		for _, c := range bs {
			others = append(others, c.id)
		}
		for _, o := range others {
			k := index(all, o)
			d, has := v.GetBlockAncestorDepth(b.id, o)
			ok(has == (k >= 0), "ancestry of two blocks is answered wrong")
			if has {
				ok(d == uint64(k), "the depth of an ancestor is wrong")
				got := v.GetBlockAncestorsUntil(b.id, o)
				n := 0
				if k > 1 {
					n = k - 1
				}
				ok(len(got) == n, "the blocks between two blocks are wrong in number")
				for x := range got {
					ok(got[x] == up[i][x], "the blocks between two blocks are wrong")
				}
			}
		}
		for j, c := range bs {
			lca := zero
			for _, x := range all {
				if x == c.id || index(up[j], x) >= 0 {
					lca = x
					break
				}
			}
			ok(v.GetBlockLCA(b.id, c.id) == lca, "the most recent common ancestor is wrong")
		}
		ok(v.GetBlockLCA(b.id, zero) == zero, "the common ancestor with the root is wrong")
		ok(v.GetBlockLCA(zero, b.id) == zero, "the common ancestor with the root is wrong")
	}
	d, has := v.GetBlockAncestorDepth(zero, zero)
	ok(has && d == 0, "the root is not its own ancestor at depth 0")
	_, has = v.GetBlockAncestorDepth(zero, bs[0].id)
	ok(!has, "the root has an ancestor")
	ok(v.GetBlockSpecificAncestor(zero, 3) == zero, "the root has an ancestor")
	x, has := v.HasAnyBlock([]core.HashT{tag(1), bs[0].id, tag(2)})
	ok(has && x == bs[0].id, "a known block among unknown ones is not found")
	_, has = v.HasAnyBlock([]core.HashT{tag(1), tag(2)})
	ok(!has, "an unknown block is found")
}

// Every ancestry query on every tree of blocks with arbitrary ids.
// bounds: every tree of 1..5 blocks (6 thorough) below the root with arbitrary noise, every pair of blocks, every depth
// reach: end
// cfg: paths=20000
func C26_tree() {
	zverif.SetNow(baseTime + 1000)
	p := testParams()
	v := inv.NewInv(p, nil)
	n := zverif.Int("blocks", 1, zverif.Tier(5, 6))
	var bs []*blk
	for i := 0; i < n; i++ {
		var prev *blk
		if k := zverif.Choice("parent"+sprint(i), i+1); k > 0 {
			prev = bs[k-1]
		}
		b := symChild(p, prev, "noise"+sprint(i), tag(byte(i)))
		setup(storeTop(v, b))
		bs = append(bs, b)
	}
	checkAncestry(v, bs)
	zverif.Reach("end")
}

// The same on long forked chains.
// bounds: two branches of 1..4 blocks (6 thorough) above a common trunk of 0..3 blocks
// reach: end
// cfg: paths=20000
func C26_fork() {
	zverif.SetNow(baseTime + 1000)
	p := testParams()
	v := inv.NewInv(p, nil)
	trunk := chainOf(p, nil, zverif.Int("trunk", 0, 3), tag(1))
	k := zverif.Tier(4, 6)
	a := chainOf(p, trunk, zverif.Int("a", 1, k), tag(2))
	b := chainOf(p, trunk, zverif.Int("b", 1, k), tag(3))
	store(v, a)
	store(v, b)
	bs := a.path()
	for _, x := range b.path() {
		if trunk == nil || x.height > trunk.height {
			bs = append(bs, x)
		}
	}
	checkAncestry(v, bs)
	zverif.Reach("end")
}

// The same where the branches have blocks of different targets, so that more blocks may be less work.
// bounds: two branches of 1..5 blocks (7 thorough) above 1..2 common ones, each branch slow, on time or fast, with a period of 4
// reach: uneven end
// cfg: paths=20000
func C26_targets() {
	zverif.SetNow(baseTime + 100000)
	p := testParams()
	v := inv.NewInv(p, nil)
	grow := func(prev *blk, n int, spacing uint64, owner byte) *blk {
		for ; n > 0; n-- {
			h, at, last := uint64(1), uint64(baseTime), core.HashT{}
			if prev != nil {
				h, at, last = prev.height+1, prev.b.MinedTime+spacing, prev.id
			}
			b := rawBlock(prev, core.NextTarget(p, v, last), at, []core.Tx{coinbase(h, p.BlockReward, tag(owner))})
			setup(storeTop(v, b))
			prev = b
		}
		return prev
	}
	trunk := grow(nil, zverif.Int("trunk", 1, 2), 10, 1)
	most := zverif.Tier(5, 7)
	speeds := []uint64{1, 10, 100}
	a := grow(trunk, zverif.Int("a", 1, most), speeds[zverif.Choice("speed a", 3)], 2)
	b := grow(trunk, zverif.Int("b", 1, most), speeds[zverif.Choice("speed b", 3)], 3)
	if a.height < b.height && v.GetBlockTotalWork(b.id).Lt(v.GetBlockTotalWork(a.id)) {
		zverif.Reach("uneven")
	}
	bs := a.path()
	for _, x := range b.path() {
		if x.height > trunk.height {
			bs = append(bs, x)
		}
	}
	checkAncestry(v, bs)
	zverif.Reach("end")
}
