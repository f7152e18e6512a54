package zharness

import (
	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/peer"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Two nodes on branches of one trunk connect: the lighter one ends with the heavier one's chain and ledger, and the heavier one is unchanged.
// bounds: trunk of 2 blocks known to both or to one only; branches of 0..2 and 0..1 (thorough: 2) blocks with seven contents each (chains inside a block, conflicts between the branches, shared transactions, a spend waiting in one mempool) and every amount; connected before or after the branch appears; either end initiates
// assumes: ideal hash and signature
// reach: taken kept
// cfg: paths=20000 budget=400 alloc=262144
func C15_sync() {
	p := testParams()
	f := newForks(p, false, nil) // node a
	g := *f                      // node b
	f.start()
	lent := zverif.Bool("b knows the trunk")
	g.n = newNode(p, false, nil)
	g.known = nil
	if lent {
		g.start()
	}
	headA, headB := f.t2, g.t2
	if !lent {
		headB = nil
	}
	menu := 7
	grow := func(name string, f *forks, prev *blk, n int, owner byte) *blk {
		for i := 0; i < n; i++ {
			prev = next(f.p, prev, tag(owner), f.menu(zverif.Choice(name+sprint(i), menu))...)
			zverif.Assume(applicable(prev))
			f.give(prev.id, prev)
		}
		return prev
	}
	la := zverif.Int("a grows", 0, 2)
	lb := 0
	if lent {
		lb = zverif.Int("b grows", 0, zverif.Tier(1, 2))
	}
	headA = grow("a", f, headA, la, 1)
	late := lent && la > lb && zverif.Bool("connected before")
	aInitiates := zverif.Bool("a initiates")
	idOf := func(b *blk) core.HashT {
		if b == nil {
			return core.HashT{}
		}
		return b.id
	}
	link := connect("node-a", "node-b")
	ca, cb := link.a, link.b
	if !aInitiates {
		ca, cb = cb, ca
	}
	if late {
		// a's blocks are news to its peer only when it is told of the head
		go peer.NewPeer(f.n.bus, f.n.inv, ca, f.t2.id).Loop()
	} else {
		go peer.NewPeer(f.n.bus, f.n.inv, ca, headA.id).Loop()
	}
	headB = grow("b", &g, headB, lb, 2)
	g.n.lastHead()
	go peer.NewPeer(g.n.bus, g.n.inv, cb, idOf(headB)).Loop()
	for i := 0; i < 4; i++ {
		zverif.Settle()
	}
	if late {
		_, any := g.n.lastHead()
		ok(!any, "a chain is taken from a peer that did not offer it")
		for _, b := range headB.path() { // b's chain was offered against what a's peer knew
			f.note(b.txs...)
		}
		f.n.bus.ValidatedHead.Pub(bus.ValidatedHeadEvent{Head: headA.id})
		for i := 0; i < 4; i++ {
			zverif.Settle()
		}
	}
	heightOf := func(b *blk) int {
		if b == nil {
			return 0
		}
		return int(b.height)
	}
	switch ha, hb := heightOf(headA), heightOf(headB); {
	case ha > hb:
		h, any := g.n.lastHead()
		ok(any && h == headA.id, "the lighter node does not adopt the heavier chain")
		for _, b := range headA.path() {
			g.note(b.txs...)
		}
		f.check(headA, "heavier node after a sync")
		g.check(headA, "lighter node after a sync")
		zverif.Reach("taken")
	case hb > ha:
		h, any := f.n.lastHead()
		ok(any && h == headB.id, "the lighter node does not adopt the heavier chain")
		for _, b := range headB.path() {
			f.note(b.txs...)
		}
		f.check(headB, "lighter node after a sync")
		g.check(headB, "heavier node after a sync")
		zverif.Reach("taken")
	default:
		_, any := g.n.lastHead()
		ok(!any, "a chain of equal work is taken")
		f.check(headA, "after a sync of equals")
		g.check(headB, "after a sync of equals")
		zverif.Reach("kept")
	}
}

// A chain is handed on exactly if it is continuous, attaches to a known block, proves more work than ours and has its proof of work.
// bounds: one or two new blocks on either trunk block or the root, three if the chain is cut; one of: a cut at any place, not the claimed attachment; targets at which the total is less, equal or more than ours; a block that misses its target; a head other than the first block; blocks in the wrong order; every coinbase amount
// assumes: ideal hash
// reach: handed refused
// cfg: paths=20000 alloc=262144
func C15_refuse() {
	p := testParams()
	p.MaxTarget, p.OriginalTarget = pow2m1(252), pow2m1(251)
	h := newHostileWith(p, false)
	cand := h.n.bus.CandidateHead.SubCh()
	anchors := []core.HashT{h.t2.id, h.t1.id, {}}
	ai := zverif.Choice("anchor", 3)
	spoil := zverif.Choice("spoil", 5)
	n := zverif.Int("blocks", 1, 2)
	cut := n - 1 // where the chain is cut
	if spoil == 1 && zverif.Bool("three blocks") {
		n = 3
		cut = zverif.Choice("cut", 3)
	}
	total := []int{4, 2, 0}[ai] // work in units of 16/2 blocks
	ws := make([]int, n)
	for i := range ws {
		ws[i] = 2
		if n < 3 {
			ws[i] = zverif.Choice("work"+sprint(i), 3)
		}
		total += 1 << ws[i]
	}
	good := spoil == 0 && total > 4
	value := uint64(7)
	if good {
		value = zverif.U64("value")
	}
	cb := coinbase(3, value, tag(1))
	ms, root := tree([]core.HashT{cb.Hash()})
	var bs []core.Block
	parent := anchors[ai]
	for i := 0; i < n; i++ {
		if spoil == 1 && i == cut {
			parent = anchors[(ai+1)%3]
		}
		b := core.Block{PrevBlockId: parent, Target: pow2m1(252 - ws[i]), MinedTime: timeAt(3), MerkleRoot: root}
		if spoil == 2 && i == n-1 {
			t := b.Target.Data()
			b.Nonce = zverif.MineNonce("bad nonce", func(k uint64) bool {
				c := b
				c.Nonce = k
				return !zverif.HashLess(c.Hash().Data(), t)
			})
		} else {
			b = mine(b)
		}
		bs = append([]core.Block{b}, bs...)
		parent = b.Hash()
	}
	ids := make([]core.HashT, n)
	for i, b := range bs {
		ids[i] = b.Hash()
	}
	if spoil == 3 {
		zverif.Assume(n == 2)
		ids[0], ids[1] = ids[1], ids[0]
		bs[0], bs[1] = bs[1], bs[0]
	}
	head := ids[0]
	h.whole = true
	h.startSync(pow2m1(256), head)
	h.text("continue")
	h.text("sync:send")
	for _, id := range ids {
		h.raws(rawHash(id))
	}
	if spoil == 4 { // claims to attach elsewhere
		h.raws(rawHash(anchors[(ai+1)%3]))
	} else {
		h.raws(rawHash(anchors[ai]))
	}
	for _, b := range bs {
		h.raws(rawBlockMsg(b))
	}
	zverif.Settle()
	// what belongs to the blocks, asked for or not
	h.raws(append([]byte{0}, rawHash(ms[0].LChild)...), rawHash(ms[0].RChild))
	h.raws(append([]byte{1, 1}, rawU64(3)...), append(rawU64(0), rawU64(1)...), append(rawU64(value), rawHash(tag(1))...))
	zverif.Settle()
	cnt := drain(cand.C, func(e bus.CandidateHeadEvent) {
		ok(e.Head == head && len(e.Blocks) == n && len(e.Merkles) == 1 && len(e.Txs) == 1, "another chain is handed on than was sent")
		for i := range e.Blocks {
			ok(e.Blocks[i].Hash() == ids[n-1-i], "blocks are handed on in the wrong order")
		}
		ok(e.Merkles[0] == ms[0] && txEq(e.Txs[0], cb), "what belongs to a chain is handed on altered")
		ok(!e.AutoAddMempoolInsecure, "a peer's transactions are handed on as trusted")
	})
	if good {
		ok(cnt == 1, "a proper heavier chain is not handed on")
		zverif.Reach("handed")
	} else {
		ok(cnt == 0, "an improper chain is handed on")
		zverif.Reach("refused")
	}
}
